"""Front end shared by every check: parses /repo's current sources with libTooling
(tool/export.cc) and loads the resolved syntax trees.  No rule lives here."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
TOOL_SRC = os.path.join(VERIF, "tool", "export.cc")
SHIM = os.path.join(VERIF, "shim")
JOBS = os.cpu_count() or 4


class Broken(Exception):
    """The analysis could not be carried out (never a verdict)."""


def _cache():
    d = os.environ.get("SA_CACHE") or os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "sa-cache-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
    return d


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _run(cmd, what, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise Broken("%s failed (%d): %s\n%s" % (what, r.returncode, " ".join(cmd)[:300], r.stdout[-3000:]))
    return r.stdout


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_tool():
    key = _sha(_read(TOOL_SRC))
    out = os.path.join(_cache(), "export-" + key)
    with Lock(os.path.join(_cache(), "tool.lock")):
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            _run(["clang++-18", "-std=c++17", "-O0", "-g0", "-fno-rtti", "-I/usr/lib/llvm-18/include", TOOL_SRC, "-o", tmp,
                  "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], "building the exporter")
            os.rename(tmp, out)
    return out


def gen_shim():
    """Headers clang 18 needs adjusted to parse libstdc++ 14 in C++23 mode; generated
    from the installed ones, never from the repository."""
    out = os.path.join(_cache(), "shim18")
    done = os.path.join(out, ".done3")
    with Lock(os.path.join(_cache(), "shim.lock")):
        if not os.path.exists(done):
            os.makedirs(os.path.join(out, "bits"), exist_ok=True)
            s = _read("/usr/include/c++/14/bits/stl_iterator.h").decode()
            s2 = _fix_stl_iterator(s)
            with open(os.path.join(out, "bits", "stl_iterator.h"), "w") as f:
                f.write(s2)
            cx = "/usr/include/cxxopts.hpp"
            if os.path.exists(cx):
                t = _read(cx).decode()
                if "contains(const std::string" not in t:
                    t = re.sub(r"(\n\s*(?:CXXOPTS_NODISCARD\s*)?(?:std::)?size_t\s*\n?\s*count\(const std::string& o\) const)",
                               r"\n  bool contains(const std::string& o) const { return count(o) != 0; }\n\1", t, count=1)
                with open(os.path.join(out, "cxxopts.hpp"), "w") as f:
                    f.write(t)
            open(done, "w").close()
    return out


def _fix_stl_iterator(s):
    # drop the mutually recursive constraint on the two __normal_iterator operator== overloads
    out, i = "", 0
    while True:
        j = s.find("requires requires {", i)
        if j < 0 or "__normal_iterator" not in s:
            return out + s[i:]
        k = s.index("{", j)
        depth = 0
        while True:
            depth += {"{": 1, "}": -1}.get(s[k], 0)
            k += 1
            if depth == 0:
                break
        head = s[max(0, j - 400):j]
        if "operator==(const __normal_iterator" in head[head.rfind("template"):]:
            out += s[i:j]
        else:
            out += s[i:k]
        i = k


STD = """algorithm any array atomic chrono cmath compare concepts cstdint deque exception format fstream functional
iomanip iostream iterator limits list map memory numeric optional ostream print queue random ranges regex set
source_location sstream string string_view tuple type_traits unordered_map unordered_set utility variant vector version""".split()


def flags():
    return ["-std=c++23", "-w", "-ferror-limit=5", "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined",
            "-I", gen_shim(), "-I", SHIM, "-I", REPO]


def _walk(sub, exts):
    for dp, dn, fn in os.walk(os.path.join(REPO, sub)):
        dn[:] = sorted(d for d in dn if not d.startswith((".", "_build", "build")))
        for f in sorted(fn):
            if f.endswith(exts):
                yield os.path.relpath(os.path.join(dp, f), REPO)


def lib_headers():
    return [h for h in _walk("gcs", (".hh",)) if "test" not in h]


def lib_units():
    """Every library translation unit: what gcs/CMakeLists.txt compiles, plus whatever is added beside it."""
    return [f for f in _walk("gcs", (".cc",)) if not f.endswith("_test.cc") and "_tests/" not in f and "test_utils" not in f]


def tree_key():
    h = hashlib.sha256()
    for sub in ("gcs", "examples", "scp", "minizinc", "util"):
        for f in _walk(sub, (".hh", ".hpp", ".h")):
            h.update(f.encode() + b"\0" + _read(os.path.join(REPO, f)) + b"\0")
    h.update(_read(TOOL_SRC))
    for dp, dn, fn in os.walk(SHIM):
        for f in sorted(fn):
            h.update(_read(os.path.join(dp, f)))
    return h.hexdigest()


def _pch(name, text):
    tmpd = _cache()
    key = _sha(text, tree_key(), " ".join(flags()), REPO, "no-timestamp")
    out = os.path.join(tmpd, "%s-%s.pch" % (name, key))
    with Lock(os.path.join(tmpd, "pch.lock")):
        if not os.path.exists(out):
            src = os.path.join(tmpd, "%s-%s.hh" % (name, key))
            with open(src, "w") as f:
                f.write(text)
            t = out + ".tmp%d" % os.getpid()
            _run(["clang++-18"] + flags() + ["-Xclang", "-fno-pch-timestamp", "-x", "c++-header", src, "-o", t], "precompiling headers")
            os.rename(t, out)
    return out


def std_pch():
    return _pch("std", "".join("#include <%s>\n" % h for h in STD))


def lib_pch():
    return _pch("lib", "".join("#include <%s>\n" % h for h in STD) + "".join("#include <%s>\n" % h for h in lib_headers()))


def _export_one(args):
    tool, src, out, fl = args
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run([tool, REPO, tmp, src, "--"] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        return src, r.stdout[-2500:]
    os.rename(tmp, out)
    return src, None


def export(units, headers=True):
    """Exports the given units (paths relative to the repository); returns the files."""
    fl = flags()
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        ftool = ex.submit(build_tool)
        flib = ex.submit(lib_pch)
        tool = ftool.result()
        lib = flib.result()
        std = std_pch() if headers else None
        tk = tree_key()
        jobs, files = [], []

        def add(src, text, fls):
            out = os.path.join(_cache(), "x-" + _sha(src, text, tk, " ".join(fls), REPO) + ".tsv")
            files.append(out)
            if not os.path.exists(out):
                jobs.append((tool, src, out, fls))

        if headers:
            src = lib[:-4] + ".all.cc"
            with open(src, "w") as f:
                f.write("".join("#include <%s>\n" % h for h in lib_headers()))
            add(src, "headers", fl + ["-include-pch", std])
        for u in units:
            p = os.path.join(REPO, u)
            add(p, _read(p), fl + ["-include-pch", lib])
        bad = []
        for src, err in ex.map(_export_one, jobs):
            if err is not None:
                bad.append((src, err))
    if bad:
        raise Broken("could not parse %d unit(s): %s" % (len(bad), "\n".join("%s:\n%s" % b for b in bad)))
    return files


class Rec:
    """A lazily parsed record.  Attributes of the exported object are items."""
    __slots__ = ("r", "key", "file", "p", "inst", "_raw", "_d", "prog", "__weakref__", "extra")

    def __init__(self, r, key, file, p, inst, raw, prog):
        self.r, self.key, self.file, self.p, self.inst, self._raw, self._d, self.prog = r, key, file, p, inst, raw, None, prog
        self.extra = None

    @property
    def d(self):
        if self._d is None:
            self._d = json.loads(self._raw)
            self._raw = None
        return self._d

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    @property
    def loc(self):
        return "%s:%s" % (self.file, self.p.split(":")[0])

    def type(self, node_or_idx):
        if isinstance(node_or_idx, dict):
            node_or_idx = node_or_idx.get("t")
        return self.d["T"][node_or_idx] if node_or_idx is not None else ""

    def at(self, node):
        return "%s:%s" % (self.file, node.get("p", self.p).split(":")[0])

    def __repr__(self):
        return "<%s %s>" % (self.r, self.key)


class Program:
    def __init__(self, units, headers=True):
        self.units = list(units)
        self.fns, self.insts, self.decls, self.classes, self.enums, self.vars, self.aliases = {}, {}, {}, {}, {}, {}, {}
        self.by_pos = {}
        self.tus = 0
        dst = {"fn": self.fns, "decl": self.decls, "class": self.classes, "enum": self.enums, "var": self.vars, "alias": self.aliases}
        for fn in export(units, headers):
            with open(fn, encoding="utf-8", errors="replace") as f:
                for line in f:
                    r, key, file, p, inst, raw = line.split("\t", 5)
                    if r == "tu":
                        if '"errors":true' in raw:
                            raise Broken("parse errors in " + fn)
                        self.tus += 1
                        continue
                    d = dst[r]
                    if r == "fn" and inst:
                        d = self.insts
                    if key in d:
                        continue
                    d[key] = Rec(r, key, file, p, bool(inst), raw, self)
        if not self.tus:
            raise Broken("nothing parsed")

    def fn(self, key):
        return self.fns.get(key) or self.insts.get(key)

    def all_fns(self):
        return list(self.fns.values())


def kids(n):
    """Direct child nodes, in evaluation-ish order."""
    if not isinstance(n, dict):
        return
    for k in ("init", "var", "cond", "range", "obj", "callee", "e"):
        v = n.get(k)
        if isinstance(v, dict):
            yield v
    for v in n.get("c") or ():
        if isinstance(v, dict):
            yield v
    for k in ("then", "else", "inc", "v", "body"):
        v = n.get(k)
        if isinstance(v, dict):
            yield v
    for v in n.get("handlers") or ():
        yield v
    for v in n.get("caps") or ():
        if isinstance(v.get("e"), dict):
            yield v["e"]


def walk(n, into_lambdas=True):
    if not isinstance(n, dict):
        return
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if x.get("k") == "LambdaExpr" and not into_lambdas and x is not n:
            continue
        stack.extend(reversed(list(kids(x))))
