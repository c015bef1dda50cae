"""C16: parsing any text ends in a value or a reported error."""
import os
import re

import ir
from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS
from common import Report, main
from c17 import plain
from c07 import short_fn
import flow
from flow import Engine, St, TooHard

ALL = frozenset(range(-128, 128))
SKIP = frozenset(ord(c) for c in " \t\n\r\f\v")
PAIRS = {"(": ")", "[": "]", "{": "}"}
TEXT = re.compile(r"^(const )?std::(basic_string|basic_string_view|string|string_view)\b")
REVERSED = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
DOCUMENTED = {"gcs::innards::SExprParseError", "gcs::InvalidProblemDefinitionException", "gcs::ScpReadError", "gcs::ScpUnsupportedConstraintError", "std::runtime_error"}


def text_type(t):
    return bool(TEXT.match(t.strip().rstrip("&").strip()))


def token_struct(prog, t):
    """(class, kind field, enum) when t is a vector of a record that has an enumeration and at most a few members."""
    m = re.match(r"^(?:const )?std::(?:vector|span)<(?:const )?([^<>]*?)(?:,.*)?>", t.strip().rstrip("&").strip())
    if not m:
        return None
    name = m.group(1).strip()
    c = local(prog.classes, name)
    if not c:
        return None
    for f in c.get("fields") or ():
        ft = plain(c.type(f["t"]))
        e = local(prog.enums, ft)
        if e is not None:
            return (name, f["n"], ft)
    return None


def local(table, name):
    """Looks up a type, which may be local to a file."""
    if name in table:
        return table[name]
    if "(anonymous namespace)" in name:
        memo = _local.setdefault(id(table), {})
        if not memo:
            for k in table:
                if "@" in k:
                    memo.setdefault(re.sub(r"@[^:<>, ]*", "", k), k)
        k = memo.get(name)
        return table.get(k) if k else None
    return None


_local = {}


def bare(k):
    return re.sub(r"@[^:<>, ]*", "", k or "")


class Cursor(Engine):
    """Follows positions in a text or in a sequence of tokens."""
    max_depth = 16

    def __init__(self, prog, file, summarised, roots, rep=None, sentinel=None, kindchar=None, valued=None):
        super().__init__(prog)
        self.file, self.summarised, self.roots, self.rep = file, summarised, roots, rep
        self.cursors = {}        # index place -> container place
        self.tok = {}            # container place -> (class, field, enum)
        self.sentinel, self.kindchar, self.valued = sentinel, kindchar or {}, valued
        self.calls_before = set()
        self.outputs_in = {}
        self.root = None
        self.pushes = {}
        self.found = dict(reads=0, consumed=0, loops=0)
        self.maybe = []
        self.jumped = set()

    # ---- facts: ts is a frozenset of tuples
    @staticmethod
    def has(st, x):
        return x in st.ts

    @staticmethod
    def add(st, *xs):
        return st.with_ts(st.ts | set(xs))

    @staticmethod
    def drop(st, pred):
        return st.with_ts(frozenset(x for x in st.ts if not pred(x)))

    def should_inline(self, rec, n):
        return rec["file"] == self.file and rec.key not in self.roots and rec.key not in self.summarised

    def note(self, fr, n, kind, sig, msg):
        if self.rep is not None:
            self.rep.bad(kind, fr["f"].at(n), "%s|%s" % (short_fn(self.root), sig), msg)

    def unsure(self, fr, n, kind, sig, msg):
        if self.rep is not None:
            self.rep.undecided(kind, fr["f"].at(n), "%s|%s" % (short_fn(self.root), sig), msg)

    # ---- reading positions
    def linear(self, fr, n, st):
        n = self.peel(n)
        if not isinstance(n, dict):
            return None
        if n["k"] == "IntegerLiteral":
            return (None, int(n["v"]))
        if n["k"] in ("BinaryOperator",) and n.get("op") in ("+", "-"):
            a, b = self.linear(fr, n["c"][0], st), self.linear(fr, n["c"][1], st)
            if a is None or b is None:
                return None
            if b[0] is None:
                return (a[0], a[1] + (b[1] if n["op"] == "+" else -b[1]))
            if a[0] is None and n["op"] == "+":
                return (b[0], a[1] + b[1])
            return None
        p = self.place(fr, n, st)
        if p is not None and "[]" not in p:
            return (p, 0)
        return None

    def container(self, fr, n):
        n = self.peel(n)
        if not isinstance(n, dict) or "t" not in n:
            return None
        t = fr["f"].type(n)
        if text_type(t):
            return "text"
        return token_struct(self.prog, t)

    def subscript(self, n):
        """(container, index) of an element access."""
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]" and len(n.get("c") or ()) == 2:
            return n["c"][0], n["c"][1]
        if n["k"] == "CXXMemberCallExpr" and fname(n) == "at" and len(n.get("c") or ()) == 1 and isinstance(n.get("obj"), dict):
            return n["obj"], n["c"][0]
        return None

    def place(self, fr, n, st, depth=0):
        m = self.peel(n)
        if isinstance(m, dict):
            s = self.subscript(m)
            if s is not None and self.container(fr, s[0]) is not None:
                return None
        return super().place(fr, n, st, depth)

    @staticmethod
    def cname(t, i):
        return "%s@%s" % (t, i)

    def inb(self, st, t, i, off=0):
        return st.env.get("?inb:%s@%s+%d" % (t, i, off))

    def set_fact(self, st, key, val, deps):
        self.deps[key] = tuple(deps)
        return St({**st.env, key: val}, st.ts, st.trace)

    def in_bounds(self, st, t, i, off=0):
        for k, v in st.env.items():
            if k.startswith("?inb:%s@%s+" % (t, i)) and v == ("c", True) and int(k.rsplit("+", 1)[1]) >= off:
                return True
        v = self.inb(st, t, i, off)
        return None if v is None else v[1]

    def mask(self, st, t, i):
        v = st.env.get("?m:%s@%s" % (t, i))
        return v[1] if v is not None else None

    def access(self, fr, n, st):
        """An element is read: checks that it exists; (state, value)."""
        cont, idx = self.subscript(n)
        c = self.container(fr, cont)
        res = []
        for s0, _ in self.expr(fr, cont, st):
            T = self.place(fr, cont, s0)
            ix = self.peel(idx)
            post = ix if isinstance(ix, dict) and ix["k"] == "UnaryOperator" and ix.get("op") in ("++",) and ix.get("postfix", True) and not ix.get("prefix") else None
            if post is not None and self.is_prefix(post):
                post = None
            for s, _ in ([(s0, None)] if post is not None else self.expr(fr, idx, s0)):
                lin = self.linear(fr, post["c"][0] if post is not None else (ix["c"][0] if isinstance(ix, dict) and ix["k"] == "UnaryOperator" and ix.get("op") == "++" else idx), s)
                if T is None or lin is None or lin[0] is None:
                    if T is not None and lin is not None and self.rep is not None and c == "text":
                        self.constant_read(fr, n, s, T, lin[1])
                    res.append((s, None))
                    continue
                i, off = lin
                if off == 0:
                    self.cursors[i] = T
                if c != "text":
                    self.tok[T] = c
                self.found["reads"] += 1
                ok = self.in_bounds(s, T, i, off)
                if c != "text" and self.sentinel and off == 0:
                    ok = not any(x == ("past", T, i) for x in s.ts)
                if self.rep is not None:
                    if ok:
                        self.rep.ok("reads-are-inside", "%s %s[%s]" % (short_fn(self.root), T, i))
                    else:
                        self.note(fr, n, "reads-are-inside", "read" if ok is None else "read-past-end",
                                  "an element of the text is read here, and on some path %s" % ("nothing has established that there is one" if ok is None else "the end has been reached"))
                if post is not None:
                    m = self.mask(s, T, i)
                    for s2, _ in self.expr(fr, post, s):
                        res.append((s2, ("tk", T, m) if c != "text" else None))
                else:
                    res.append((s, ("ch", T, i, off) if c == "text" else ("tkp", T, i)))
        return res

    @staticmethod
    def is_prefix(n):
        return bool(n.get("lv"))      # ++x is an lvalue, x++ is not

    def constant_read(self, fr, n, s, T, k):
        for key, v in s.env.items():
            if key == "?sz:" + T and v[1][0] > k:
                self.rep.ok("reads-are-inside")
                return
        self.rep.undecided("reads-are-inside", fr["f"].at(n), "%s|constant" % short_fn(self.root), "an element at a fixed position is read, and its existence was not established")

    def on_other(self, fr, n, st):
        k = n["k"]
        if self.subscript(n) is not None and self.container(fr, self.subscript(n)[0]) is not None:
            return self.access(fr, n, st)
        if k in ("BinaryOperator", "RewrittenOp") and n.get("op") in ("<", "<=", ">", ">="):
            h = self.on_cond(fr, n, st)
            if h is not None:
                return [(s, ("c", b)) for s, b in h]
        if k == "CharacterLiteral":
            return [(st, ("c", ("chr", n["v"])))]
        if k == "MemberExpr" and not n.get("fn") and (n.get("c") or [None])[0] is not None:
            b = self.peel(n["c"][0])
            c = None
            if isinstance(b, dict) and "t" in b:
                t = plain(fr["f"].type(b))
                c = next((x for x in self.tok.values() if x[0] == t), None) or token_struct(self.prog, "std::vector<%s>" % t)
            if c is not None and isinstance(b, dict) and b["k"] != "CXXThisExpr":
                res = []
                for s, v in self.expr(fr, n["c"][0], st):
                    if v is not None and v[0] == "tkp":
                        if n["n"] == c[1]:
                            res.append((s, ("kd", v[1], v[2])))
                            continue
                        self.value_of(fr, n, n["n"], self.mask(s, v[1], v[2]), c)
                        res.append((s, None))
                    elif v is not None and v[0] == "tk":
                        if n["n"] == c[1]:
                            res.append((s, ("c", next(iter(v[2]))) if v[2] is not None and len(v[2]) == 1 else None))
                            continue
                        self.value_of(fr, n, n["n"], v[2], c)
                        res.append((s, None))
                    else:
                        res.append((s, None))
                return res
        if k == "CXXMemberCallExpr" and fname(n) in ("size", "length") and isinstance(n.get("obj"), dict) and self.container(fr, n["obj"]) is not None:
            res = []
            for s, _ in self.expr(fr, n["obj"], st):
                p = self.place(fr, n["obj"], s)
                res.append((s, ("size", p) if p else None))
            return res
        if k == "BinaryOperator" and n.get("op") in ("+", "-"):
            res = []
            for s, a in self.expr(fr, n["c"][0], st):
                for s2, b in self.expr(fr, n["c"][1], s):
                    t = next((x for x in (a, b) if x is not None and x[0] in ("ch", "from")), None)
                    res.append((s2, ("from",) + tuple(t[1:3]) if t is not None and len(t) > 2 else t if t else None))
            return res
        if k == "BinaryOperator" and n.get("op") in ("=",) or k == "CompoundAssignOperator" or k == "BinaryOperator" and n.get("op") in ("+=",):
            r = self.accumulation(fr, n, st)
            if r is not None:
                return r
        return None

    def value_of(self, fr, n, field, mask, c):
        if self.rep is None or self.valued is None:
            return
        if mask is None:
            self.unsure(fr, n, "values-exist", field, "which kind of token this value is taken from was not established")
            return
        self.rep.check(mask <= self.valued, "values-exist", fr["f"].at(n), "%s|%s" % (short_fn(self.root), field),
                       "the value of a token is used although on some path the token is a %s, which has none" % ", ".join(sorted(mask - self.valued)[:4]))

    def accumulation(self, fr, n, st):
        """x = x * 10 + digit, and the like."""
        lhs = self.peel(n["c"][0])
        if not isinstance(lhs, dict) or "t" not in lhs:
            return None
        t = plain(fr["f"].type(lhs))
        if not re.match(r"^(unsigned )?(int|long|long long|short)$|^std::size_t$", t):
            return None
        p = self.place(fr, lhs, st)
        if p is None or not any(x[0] == "in" for x in st.ts):
            return None
        rhs = n["c"][1]
        mul = any(x["k"] == "BinaryOperator" and x.get("op") == "*" for x in walk(rhs, False)) and any(x["k"] == "DeclRefExpr" and x.get("d") == lhs.get("d") for x in walk(rhs, False))
        if not mul:
            return None
        if self.rep is not None:
            guarded = any(k.startswith("?") and not k.startswith(("?inb", "?m:", "?v")) and self.touches(p, d) for k in st.env for d in self.deps.get(k, ()))
            if guarded:
                self.rep.ok("numbers-do-not-overflow", "%s %s" % (short_fn(self.root), p))
            else:
                self.note(fr, n, "numbers-do-not-overflow", "accumulate", "digits are accumulated into a machine integer without anything to stop it wrapping, so a long number is read as a different one")
        return None

    # ---- tests
    def refine_mask(self, st, t, i, allowed, deps=None):
        cur = self.mask(st, t, i)
        if cur is None:
            cur = self.universe_of(t)
        m = (cur & allowed) if cur is not None else allowed
        if not m:
            return None
        if self.mask(st, t, i) == m:
            return st
        return self.set_fact(st, "?m:%s@%s" % (t, i), ("m", m), (t, i))

    def universe_of(self, t):
        if t in self.tok:
            e = local(self.prog.enums, self.tok[t][2])
            return frozenset(v["n"] for v in e["values"])
        return ALL

    def compare(self, n, c):
        return c[0]

    def on_cond(self, fr, n, st):
        op = n.get("op")
        if n["k"] == "CXXMemberCallExpr" and fname(n) == "empty" and isinstance(n.get("obj"), dict):
            return None
        if n["k"] == "CXXMemberCallExpr" and fname(n) in ("contains",) and isinstance(n.get("obj"), dict) and len(n.get("c") or ()) == 1:
            lit = self.peel(n["obj"])
            cset = self.literal_set(lit)
            if cset is not None:
                res = []
                for s, v in self.expr(fr, n["c"][0], st):
                    res += self.split(s, v, cset, True)
                return res
        if n["k"] not in ("BinaryOperator", "RewrittenOp", "CXXOperatorCallExpr") or op not in REVERSED or len(n.get("c") or ()) != 2:
            return None
        a, b = n["c"]
        res, hit = [], False
        for s, va in self.expr(fr, a, st):
            for s2, vb in self.expr(fr, b, s):
                r = self.size_test(fr, a, va, b, vb, op, s2) or self.char_test(va, vb, op, s2)
                if r is not None:
                    hit = True
                    res += r
                else:
                    res.append((s2, None))
        if not hit:
            return None
        out = []
        for s, b in res:
            out += [(s, True), (s, False)] if b is None else [(s, b)]
        return out

    def literal_set(self, n):
        for x in walk(n, False):
            if x["k"] == "StringLiteral":
                return frozenset(ord(c) for c in x["v"])
        return None

    def split(self, s, v, allowed, want):
        if v is None or v[0] != "ch" or v[3] != 0:
            return [(s, True), (s, False)]
        out = []
        for m, b in ((allowed, want), (ALL - allowed, not want)):
            r = self.refine_mask(s, v[1], v[2], m)
            if r is not None:
                out.append((r, b))
        return out

    def char_test(self, va, vb, op, s):
        for x, y, o in ((va, vb, op), (vb, va, REVERSED[op])):
            if x is not None and x[0] == "ch" and y is not None and y[0] == "c" and isinstance(y[1], tuple):
                k = y[1][1]
                k = k - 256 if k > 127 else k
                f = {"==": lambda c: c == k, "!=": lambda c: c != k, "<": lambda c: c < k, "<=": lambda c: c <= k, ">": lambda c: c > k, ">=": lambda c: c >= k}[o]
                return self.split(s, x, frozenset(c for c in ALL if f(c)), True)
            if x is not None and x[0] == "kd" and y is not None and y[0] == "c" and isinstance(y[1], str) and o in ("==", "!="):
                out = []
                for m, b in ((frozenset([y[1]]), o == "=="), (self.universe_of(x[1]) - {y[1]}, o != "==")):
                    r = self.refine_mask(s, x[1], x[2], m)
                    if r is not None:
                        out.append((r, b))
                return out
        return None

    def size_test(self, fr, a, va, b, vb, op, s):
        for x, v, y, o in ((a, vb, b, op), (b, va, a, REVERSED[op])):
            if v is not None and v[0] == "size":
                lin = self.linear(fr, x, s)
                if lin is None or lin[0] is None:
                    return None
                i, off = lin
                if off == 0:
                    self.cursors.setdefault(i, v[1])
                key = "?inb:%s@%s+%d" % (v[1], i, off)
                cur = s.env.get(key)
                yes = {"<": True, "!=": True, ">=": False, "==": False}.get(o)
                if yes is None:
                    # i <= size() says nothing about the element at i; i > size() cannot be
                    return [(s, o == "<=")] if off == 0 else [(s, True), (s, False)]
                if cur is not None:
                    return [(s, cur[1] == yes)]
                t, f = self.set_fact(s, key, ("c", True), (v[1], i)), self.set_fact(s, key, ("c", False), (v[1], i))
                return [(t, yes), (f, not yes)]
        return None

    def refine(self, st, p, v, c):
        if v is not None and v[0] in ("ch", "kd") and c is not None:
            x = c[1]
            allowed = frozenset([x[1] - 256 if x[1] > 127 else x[1]]) if isinstance(x, tuple) else frozenset([x])
            return self.refine_mask(st, v[1], v[2], allowed)
        return super().refine(st, p, v, c)

    def exclude(self, st, p, v, named, uni):
        if v is not None and v[0] in ("ch", "kd"):
            out = frozenset((x[1] - 256 if x[1] > 127 else x[1]) if isinstance(x, tuple) else x for x in named if x is not None)
            return self.refine_mask(st, v[1], v[2], self.universe_of(v[1]) - out)
        return super().exclude(st, p, v, named, uni)

    def const(self, n):
        m = self.peel(n)
        if isinstance(m, dict) and m["k"] == "CharacterLiteral":
            return ("c", ("chr", m["v"]))
        return super().const(n)

    # ---- moving
    def on_write(self, fr, n, st, key, val):
        T = self.cursors.get(key)
        # what was read at this position is no longer what stands there
        stale = [k for k, v in st.env.items() if isinstance(v, tuple) and v and v[0] in ("ch", "kd", "tkp") and len(v) > 2 and v[2] == key]
        marked = [k for k, v in st.env.items() if v == ("at", key)]
        if T is None:
            return self.forget(st, stale)
        k = n["k"]
        if k == "VarDecl" or k not in ("UnaryOperator", "CompoundAssignOperator", "BinaryOperator"):
            return self.forget(st, stale)
        step = None
        if k == "UnaryOperator":
            step = 1 if n.get("op") == "++" else -1
        elif n.get("op") == "+=":
            c = self.const(n["c"][1])
            step = c[1] if c is not None and isinstance(c[1], int) else None
        if step is None or step < 1:
            self.jumped.add(key)
            self.unsure(fr, n, "position", "jump", "the position is set to something other than the next element")
            return self.forget(St(st.env, st.ts | {("moved",)} | {("adv", x[1]) for x in st.ts if x[0] == "in"}, st.trace), stale)
        self.found["consumed"] += 1
        m = self.mask(st, T, key)
        ts = set(st.ts)
        inner = None
        for x in st.ts:
            if x[0] == "in":
                ts.add(("adv", x[1]))
        ts.add(("moved",))
        text = T not in self.tok
        if text:
            if m is None or not m <= SKIP:
                if ("credit",) in ts:
                    ts.discard(("credit",))
                else:
                    ts.add(("debt", self.innermost(st), m is not None, fr["f"].at(n)))
        else:
            if self.sentinel:
                if m is None or self.sentinel in m:
                    ts.add(("past", T, key))
                    if m is not None and len(m) == 1:
                        ts.add(("whole", T))
        br = self.bracket(m, text)
        if br is not None:
            depth = next((x[1] for x in ts if x[0] == "stack"), ())
            ts = {x for x in ts if x[0] != "stack"}
            if br in PAIRS:
                if len(depth) > 6:
                    raise TooHard("brackets nest without end")
                depth += (br,)
            elif depth and PAIRS[depth[-1]] == br:
                depth = depth[:-1]
            elif self.rep is not None:
                self.note(fr, n, "brackets-match", br, "a closing '%s' is taken that nothing opened" % br)
            ts.add(("stack", depth))
        s = St(st.env, frozenset(ts), st.trace)
        env = dict(s.env)
        for k2 in marked:
            env[k2] = ("start", key)
        return self.forget(St(env, s.ts, s.trace), stale)

    def bracket(self, m, text):
        if m is None or len(m) != 1:
            return None
        x = next(iter(m))
        if text:
            if not self.structural:
                return None
            c = chr(x) if 0 <= x < 128 else ""
        else:
            c = self.kindchar.get(x, "")
        return c if c in PAIRS or c in PAIRS.values() else None

    structural = False

    @staticmethod
    def forget(st, names):
        if not names:
            return st
        return St({k: v for k, v in st.env.items() if k not in names}, st.ts, st.trace)

    # ---- loops
    def innermost(self, st):
        ids = [x[1] for x in st.ts if x[0] == "in" and self.outputs_in.get(x[1])]
        return max(ids) if ids else ()

    def has_output(self, f, n, seen=None):
        seen = seen if seen is not None else set()
        for x in walk(n):
            if x["k"] in ("CXXMemberCallExpr",) and fname(x) in ("push_back", "emplace_back", "insert", "emplace"):
                return True
            if x["k"] in CALLS and x.get("f") and x["f"] not in seen:
                seen.add(x["f"])
                g = self.prog.fn(x["f"])
                if g is not None and g.get("body") and g["file"] == self.file and self.has_output(g, g["body"], seen):
                    return True
        return False

    def declare(self, fr, d, st):
        res = []
        init = d.get("init") if isinstance(d, dict) else None
        p = self.place(fr, init, st) if isinstance(init, dict) else None
        for s in super().declare(fr, d, st):
            if p is not None and p in self.cursors and d.get("k") == "VarDecl" and not fr["f"].type(d).rstrip().endswith("&"):
                s = St({**s.env, d["d"]: ("at", p)}, s.ts | {("owed", x) for x in s.ts if x[0] == "debt"}, s.trace)
            res.append(s)
        return res

    def loop(self, fr, n, states):
        ids = self.__dict__.setdefault("_ids", {})
        lid = (len(self.stack), fr.setdefault("ln", 0), ids.setdefault(id(n), len(ids)))
        fr["ln"] += 1
        if lid not in self.outputs_in:
            self.outputs_in[lid] = self.has_output(fr["f"], n.get("body")) if isinstance(n.get("body"), dict) else False
        self.loops = getattr(self, "loops", {})
        self.loops[id(n.get("inc") if isinstance(n.get("inc"), dict) else n.get("body"))] = (lid, n)
        before = self.found["reads"]
        ins = [self.add(s, ("in", lid)) for s in states]
        out = []
        for kind, s, v in super().loop(fr, n, ins):
            s = self.drop(s, lambda x: x in (("in", lid), ("adv", lid), ("look", lid)))
            out.append((kind, s, v))
        fr["ln"] -= 1
        return flow.dedup_out(out)

    def finish_iteration(self, fr, n, s, lid):
        if self.looks(n, fr):
            self.found["loops"] += 1
            if self.rep is not None:
                if ("adv", lid) in s.ts:
                    self.rep.ok("loops-consume", "%s loop" % short_fn(fr["f"]))
                else:
                    self.note(fr, n, "loops-consume", short_fn(fr["f"]), "this loop can go round without taking anything from the text, so it need not end")
        if self.rep is not None and self.outputs_in.get(lid):
            for x in sorted(s.ts, key=repr):
                if x[0] == "debt" and x[1] == lid:
                    self.report_debt(fr, n, x)
        return self.drop(s, lambda x: x == ("adv", lid) or x[0] == "debt" and x[1] == lid)

    def report_debt(self, fr, n, x):
        if x[2]:
            self.rep.bad("nothing-is-dropped", x[3], "%s|dropped" % short_fn(self.root), "a character that is not white space is passed over here without being reported or becoming part of the result")
        else:
            self.rep.undecided("nothing-is-dropped", x[3], "%s|dropped" % short_fn(self.root), "which characters are passed over here was not established")

    def looks(self, n, fr):
        """The loop examines the text: otherwise its end does not depend on a position."""
        key = ("looks", id(n))
        memo = self.__dict__.setdefault("_looks", {})
        if key not in memo:
            memo[key] = self.looks_in(fr["f"], n, set())
        return memo[key]

    def looks_in(self, f, n, seen):
        if n["k"] == "CXXForRangeStmt":
            return False
        parts = [n.get("cond")] if n.get("cond") is not None and self.const(n["cond"]) is None else [n.get("body")]
        return any(self.mentions(f, p, seen) for p in parts if isinstance(p, dict))

    def mentions(self, f, n, seen):
        for x in walk(n):
            s = self.subscript(x)
            if s is not None and self.container(dict(f=f), s[0]) is not None:
                return True
            if x["k"] == "CXXMemberCallExpr" and fname(x) == "size" and isinstance(x.get("obj"), dict) and self.container(dict(f=f), x["obj"]) is not None:
                return True
            if x["k"] in CALLS and x.get("f") and x["f"] not in seen:
                seen.add(x["f"])
                g = self.prog.fn(x["f"])
                if g is not None and g.get("body") and g["file"] == self.file and g.key not in self.roots and self.mentions(g, g["body"], seen):
                    return True
        return False

    def stmt(self, fr, n, states):
        l = getattr(self, "loops", {}).get(id(n)) if isinstance(n, dict) else None
        res = super().stmt(fr, n, states)
        if l is None or n is not l[1].get("body"):
            return res
        out = []
        for kind, s, v in res:
            if kind in ("fall", "continue"):
                s = self.finish_iteration(fr, l[1], s, l[0])
            out.append((kind, s, v))
        return flow.dedup_out(out)

    def expr(self, fr, n, st):
        l = getattr(self, "loops", {}).get(id(n)) if isinstance(n, dict) else None
        res = super().expr(fr, n, st)
        if l is not None and n is l[1].get("inc"):
            res = [(self.finish_iteration(fr, l[1], s, l[0]), v) for s, v in res]
        return res

    def range_for(self, fr, n, states):
        p = self.container(fr, n.get("range")) if isinstance(n.get("range"), dict) else None
        if p is not None:
            raise TooHard("a loop over the text")
        return super().range_for(fr, n, states)

    def scope_end(self, outs, decls):
        ds = {d["d"] for d in decls if isinstance(d, dict) and d.get("d")}
        res = []
        for kind, s, v in outs:
            if kind != "throw":
                for k, x in s.env.items():
                    if k.startswith("?inb:") and k.endswith("+0") and x == ("c", False):
                        t, i = k[5:-2].split("@", 1) if k[5] != "$" else self.split_name(k[5:-2])
                        if i.split(".", 1)[0] in ds or t.split(".", 1)[0] in ds:
                            s = self.add(s, ("whole", t))
            res.append((kind, s, v))
        return super().scope_end(res, decls)

    def split_name(self, x):
        for i, t in self.cursors.items():
            if x == "%s@%s" % (t, i):
                return t, i
        return x, ""

    # ---- calls
    def on_call(self, fr, n, st, name, key, args):
        if key in self.summarised and fr["f"] is not None:
            if ("moved",) not in st.ts:
                self.calls_before.add((self.root.key, key))
            this = fr["this"] if not isinstance(n.get("obj"), dict) else self.place(fr, n["obj"], st)
            s = st
            if this is not None:
                for i, T in self.cursors.items():
                    if i.startswith(this + ".") or i.startswith("this."):
                        s = self.kill(s, this + "." + i.split(".", 1)[1])
            ts = set(s.ts) | {("moved",), ("credit",)} | {("adv", x[1]) for x in s.ts if x[0] == "in"}
            return [("val", St(s.env, frozenset(ts), s.trace), flow.NN)]
        if name in ("push_back", "emplace_back", "insert", "emplace", "append", "operator+=") and n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
            s = self.output(fr, n, st)
            if name in ("push_back", "emplace_back") and isinstance(n.get("obj"), dict) and "t" in n["obj"]:
                c = token_struct(self.prog, fr["f"].type(n["obj"]))
                if c is not None:
                    s = self.pushed(fr, n, s, c)
            r = self.default_call(fr, n, s, name, key, args, n.get("c") or [], n.get("obj"))
            return r
        if name == "substr" and isinstance(n.get("obj"), dict) and self.container(fr, n["obj"]) == "text":
            self.check_substr(fr, n, st)
            s = self.output(fr, n, st)
            return [("val", s, None)]
        if n["k"] == "CallExpr" and strip_targs(qcallee(n)) in ("std::stoi", "std::stol", "std::stoll", "std::stoul", "std::stoull", "std::stod"):
            self.note(fr, n, "errors-are-documented", name, "%s throws its own exceptions, and accepts text after the number" % name)
        if key and n["k"] in ("CallExpr", "CXXMemberCallExpr") and "t" in n:
            rec = self.prog.fn(key)
            if rec is not None and rec["file"] == self.file and not self.should_inline(rec, n):
                return None
            if rec is not None and rec["file"] == self.file and rec.get("static") is None and strip_targs(qcallee(n)).split("::")[-1] in ("atom", "list"):
                pass
        if (key or "").startswith("gcs::innards::SExpr::") and name in ("atom", "list"):
            return [("val", self.output(fr, n, st), flow.NN)]
        return None

    def output(self, fr, n, st):
        ts = {x for x in st.ts if x[0] != "debt" or ("owed", x) in st.ts and fname(n) == "substr"}
        ts = {x for x in ts if x[0] != "owed"} if fname(n) != "substr" else ts
        ts.add(("credit",)) if fname(n) != "substr" else None
        return st.with_ts(frozenset(ts))

    def pushed(self, fr, n, s, c):
        arg = (n.get("c") or [None])[0]
        kinds = [x["n"] for x in walk(arg, False) if x["k"] == "EnumConst"] if isinstance(arg, dict) else []
        kinds += [x["n"] for y in (n.get("c") or ())[1:] if isinstance(y, dict) for x in walk(y, False) if x["k"] == "EnumConst"]
        p = self.place(fr, n["obj"], s)
        if not kinds or p is None:
            return self.drop(s, lambda x: x[0] == "last" and x[1] == p)
        inits = next((x for x in walk(arg, False) if x["k"] == "InitListExpr"), None)
        real = [x for x in (inits.get("c") if inits else n.get("c")) or () if isinstance(x, dict) and x["k"] not in ("CXXDefaultInitExpr", "CXXDefaultArgExpr", "ImplicitValueInitExpr")]
        m = None
        for i, t in self.cursors.items():
            if t not in self.tok:
                m = self.mask(s, t, i) or m
        self.pushes.setdefault(kinds[0], []).append((m, len(real) > 1, fr["f"].at(n)))
        s = self.drop(s, lambda x: x[0] == "last" and x[1] == p)
        s = self.add(s, ("last", p, kinds[0]))
        if self.sentinel == kinds[0]:
            s = self.drop(s, lambda x: x == ("credit",))
        return s

    def check_substr(self, fr, n, st):
        c = [x for x in n.get("c") or () if isinstance(x, dict) and x["k"] != "CXXDefaultArgExpr"]
        if len(c) != 2 or self.rep is None:
            if self.rep is not None:
                self.unsure(fr, n, "words-are-whole", "substr", "what is taken out of the text here was not worked out")
            return
        a, b = self.sum(fr, c[0], st), self.sum(fr, c[1], st)
        start = st.env.get(self.place(fr, c[0], st) or "")
        if a is None or b is None or start is None or start[0] not in ("start", "at"):
            self.unsure(fr, n, "words-are-whole", "substr", "what is taken out of the text here was not worked out")
            return
        want = {start[1]: 1}
        for k, v in a.items():
            want[k] = want.get(k, 0) - v
        want = {k: v for k, v in want.items() if v}
        self.rep.check({k: v for k, v in b.items() if v} == want, "words-are-whole", fr["f"].at(n), "%s|substr" % short_fn(self.root),
                       "the piece of text taken here does not run from where it began to the present position")

    def sum(self, fr, n, st, depth=0):
        n = self.peel(n)
        if not isinstance(n, dict) or depth > 8:
            return None
        if n["k"] == "IntegerLiteral":
            return {"": int(n["v"])}
        if n["k"] == "BinaryOperator" and n.get("op") in ("+", "-"):
            a, b = self.sum(fr, n["c"][0], st, depth + 1), self.sum(fr, n["c"][1], st, depth + 1)
            if a is None or b is None:
                return None
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + (v if n["op"] == "+" else -v)
            return r
        p = self.place(fr, n, st)
        if p is None or "[]" in p:
            return None
        v = st.env.get(p)
        if v is not None and v[0] in ("start", "at"):
            return {p: 1}
        if p in self.cursors:
            return {p: 1}
        if n["k"] == "DeclRefExpr":
            d = next((y for y in walk(fr["f"]["body"]) if y["k"] == "VarDecl" and y.get("d") == n["d"] and isinstance(y.get("init"), dict)), None)
            if d is not None and fr["f"].type(d).startswith("const ") or d is not None and n["d"] not in self.assigned_in(fr["f"]):
                return self.sum(fr, d["init"], st, depth + 1)
        return None


def parser_files(prog):
    """Files in which a position moves along a text or a sequence of tokens."""
    res = {}
    dummy = Cursor(prog, None, set(), set())
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if not f.get("body") or f.get("pattern") or not f["file"].endswith(".cc") or f["file"].endswith(("_test.cc", "_tests.cc")):
                continue
            for x in walk(f["body"]):
                s = dummy.subscript(x)
                if s is None:
                    continue
                c = dummy.container(dict(f=f), s[0])
                if c is None or dummy.const(s[1]) is not None:
                    continue
                ix = dummy.peel(s[1])
                if c != "text" and not (isinstance(ix, dict) and (ix["k"] == "MemberExpr" or ix["k"] == "UnaryOperator")):
                    continue
                res.setdefault(f["file"], []).append(f)
    return res


class Recorder:
    """Holds what is reported until it is known that the functions were cut in the right places."""

    def __init__(self):
        self.calls, self.blamed = [], set()

    def __getattr__(self, name):
        if name not in ("ok", "bad", "check", "undecided", "floor"):
            raise AttributeError(name)
        return lambda *a, **k: self.calls.append((name, a, k))

    def flush(self, rep):
        for name, a, k in self.calls:
            getattr(rep, name)(*a, **k)

    def unopened(self, f):
        """Whether a bracket was closed in f which f did not open."""
        return any(name == "bad" and a[0] == "brackets-match" and a[2].startswith(short_fn(f) + "|") and not a[2].endswith("|unclosed") or
                   name == "check" and not a[0] and a[1] == "brackets-match" and a[3] == short_fn(f) + "|unclosed" for name, a, k in self.calls)


def analyse_file(prog, rep, file, counts):
    """A function that takes over in the middle of a bracket is judged as a part of what calls it."""
    inlined = set()
    while True:
        r, c = Recorder(), {}
        again = analyse_cut(prog, r, file, c, inlined)
        if again is None:
            r.flush(rep)
            for k, v in c.items():
                counts[k] = counts.get(k, 0) + v
            return
        inlined.add(again)


def analyse_cut(prog, rep, file, counts, inlined):
    fns = {k: f for d in (prog.fns, prog.insts) for k, f in d.items() if f["file"] == file and f.get("body") and not f.get("pattern") and not f.get("lambda")}
    edges = {k: {x["f"] for x in walk(f["body"]) if x["k"] in CALLS and x.get("f") in fns} for k, f in fns.items()}
    touch = Cursor(prog, file, set(), set())
    uses = {k for k, f in fns.items() if touch.mentions(f, f["body"], set(edges) | set(prog.fns))}

    def reach(k):
        seen, work = set(), list(edges[k])
        while work:
            y = work.pop()
            if y not in seen:
                seen.add(y)
                work += edges[y]
        return seen
    reaches = {k: reach(k) for k in fns}
    direct = set(uses)
    uses = {k for k in fns if k in direct or reaches[k] & direct}
    rec = {k for k in uses if k in reaches[k]} - inlined
    # what makes its own positions: a local position, or a local object of a class whose methods use one
    own_cls = {bare(fns[k].get("cls")) for k in uses if fns[k].get("cls")}
    roots = set()
    for k in uses:
        f = fns[k]
        idx = {touch.peel(touch.subscript(x)[1]).get("d") for x in walk(f["body"]) if touch.subscript(x) is not None and touch.container(dict(f=f), touch.subscript(x)[0]) is not None}
        for y in walk(f["body"]):
            if y["k"] == "VarDecl" and (y.get("d") in idx or bare(plain(f.type(y))) in own_cls):
                if y.get("d") in idx and f.type(y).rstrip().endswith("&"):
                    continue
                roots.add(k)
    run_these = sorted(rec | roots)
    if not run_these:
        return

    def engine(rp, sentinel=None, kindchar=None, valued=None):
        return Cursor(prog, file, rec, roots, rp, sentinel, kindchar, valued)

    # first pass: what is a position, what is pushed
    first = engine(None)
    for _ in range(2):
        for k in run_these:
            first.root = fns[k]
            try:
                first.run(fns[k], St({}, frozenset()))
            except TooHard:
                pass
    # the positions that are members of a class
    fields = {}
    for k in rec | uses:
        c = bare(fns[k].get("cls"))
        if c:
            e = engine(None)
            e.root = fns[k]
            try:
                e.run(fns[k], St({}, frozenset()))
            except TooHard:
                pass
            for i, t in e.cursors.items():
                if i.startswith("this.") and t.startswith("this."):
                    fields.setdefault(c, set()).add((i[4:], t[4:]))
    # the last token: pushed at the end of every path that returns
    sentinel, kindchar, valued = None, {}, None
    lasts = {}
    if first.pushes:
        for k in run_these:
            e = engine(None)
            e.cursors, e.tok = dict(first.cursors), dict(first.tok)
            e.root = fns[k]
            try:
                outs = e.run(fns[k], St({}, frozenset()))
            except TooHard:
                continue
            if not e.pushes:
                continue
            ends = {next((x[2] for x in s.ts if x[0] == "last"), None) for kind, s, v in outs if kind == "return"}
            if len(ends) == 1 and None not in ends:
                lasts[k] = next(iter(ends))
            first.pushes.update(e.pushes)
        for kind, ps in first.pushes.items():
            ms = {next(iter(m)) for m, val, at in ps if m is not None and len(m) == 1}
            if len(ms) == 1:
                kindchar[kind] = chr(next(iter(ms)))
        valued = frozenset(k for k, ps in first.pushes.items() if all(v for m, v, at in ps))
        if lasts and len(set(lasts.values())) == 1:
            sentinel = next(iter(lasts.values()))
            if len({at for m, v, at in first.pushes[sentinel]}) != 1:
                sentinel = None
        if first.tok:
            rep.check(sentinel is not None, "tokens-end", "%s" % file, "sentinel", "the sequence of tokens does not end in one and the same token on every path, so the parser cannot tell where to stop")
    graph = set()
    for k in run_these:
        f = fns[k]
        e = engine(None, sentinel, kindchar, valued)
        e.cursors, e.tok = dict(first.cursors), dict(first.tok)
        e.root = f
        e.structural = k in rec
        e.rep = rep
        try:
            outs = e.run(f, St({}, frozenset([("stack", ())])))
        except TooHard as x:
            rep.undecided("analysis", f.loc, short_fn(f), "this function was not followed: %s" % x)
            continue
        graph |= e.calls_before
        for a in ("reads", "consumed", "loops"):
            counts[a] = counts.get(a, 0) + e.found[a]
        counts["functions"] = counts.get("functions", 0) + 1
        for kind, s, v in outs:
            if kind == "throw":
                t = v[1] if v else "?"
                rep.check(t in DOCUMENTED or any(e.derives(t, x) for x in DOCUMENTED), "errors-are-documented", f.loc, "%s|%s" % (short_fn(f), t), "an exception of type %s leaves the parser" % t)
                continue
            stack = next((x[1] for x in s.ts if x[0] == "stack"), ())
            rep.check(not stack, "brackets-match", f.loc, "%s|unclosed" % short_fn(f), "this returns normally with an opening '%s' that was never closed" % "".join(stack))
            for x in sorted(s.ts, key=repr):
                if x[0] == "debt":
                    e.report_debt(None, None, x)
            if k in rec:
                rep.check(("moved",) in s.ts, "calls-consume", f.loc, "%s|empty" % short_fn(f), "this can return without having taken anything from the text, so calling it again need not end")
            if k in roots:
                pairs = {t: i for i, t in e.cursors.items() if owned(f, i)}
                for y in walk(f["body"]):
                    if y["k"] == "VarDecl" and bare(plain(f.type(y))) in fields:
                        for i, t in fields[bare(plain(f.type(y)))]:
                            pairs.setdefault(y["d"] + t, y["d"] + i)
                for T, i in sorted(pairs.items()):
                    whole = ("whole", T) in s.ts or s.env.get("?inb:%s@%s+0" % (T, i)) == ("c", False)
                    if (not whole) and i in e.jumped:
                        rep.undecided("whole-text", f.loc, short_fn(f), "whether all of the text is read was not established")
                        continue
                    rep.check(whole, "whole-text", f.loc, "%s|rest" % short_fn(f), "this can return normally although some of the text has not been read")
    for k in sorted(rec - roots):
        if rep.unopened(fns[k]):
            left = {x: {y for y in edges[x] if y in inlined or y == k} for x in inlined | {k}}
            if not cyclic(left):
                return k
    # going into itself before anything is taken
    for a in sorted(rec):
        seen, work = set(), [a]
        cyc = False
        while work:
            y = work.pop()
            for p, q in graph:
                if p == y:
                    if q == a:
                        cyc = True
                    if q not in seen:
                        seen.add(q)
                        work.append(q)
        rep.check(not cyc, "recursion-consumes", fns[a].loc, short_fn(fns[a]), "this can come back to itself without anything having been taken from the text, so it need not end")


def cyclic(g):
    for a in g:
        seen, work = set(), list(g[a])
        while work:
            y = work.pop()
            if y == a:
                return True
            if y not in seen:
                seen.add(y)
                work += g.get(y, ())
    return False


def owned(f, i):
    """The position belongs to a variable of this function."""
    d = i.split(".", 1)[0]
    return any(y["k"] == "VarDecl" and y.get("d") == d for y in walk(f["body"]))


ELEMENTS = re.compile(r"^(const )?std::(vector|span)<(const )?gcs::(innards::SExpr|IntegerVariableID)\b")
MANY = 12


class Lists(Cursor):
    """How many elements a list has, which of them have been read, and what has been made of it."""

    def __init__(self, prog, file, makers, rep):
        super().__init__(prog, file, set(), set(), rep)
        self.makers = makers
        self.lists = {}

    def should_inline(self, rec, n):
        return False

    def container(self, fr, n):
        n = self.peel(n)
        if not isinstance(n, dict) or "t" not in n:
            return None
        return "text" if ELEMENTS.match(fr["f"].type(n).strip()) else None

    def looks(self, n, fr):
        return False

    def accumulation(self, fr, n, st):
        return None

    def sizes(self, st, T):
        v = st.env.get("?sz:" + T)
        return v[1] if v is not None else frozenset(range(MANY + 1))

    def on_cond(self, fr, n, st):
        if n["k"] == "CXXMemberCallExpr" and fname(n) == "empty" and isinstance(n.get("obj"), dict) and self.container(fr, n["obj"]):
            p = self.place(fr, n["obj"], st)
            if p is not None:
                return self.narrow(st, p, lambda k: k == 0)
        return super().on_cond(fr, n, st)

    def narrow(self, st, T, f):
        S = self.sizes(st, T)
        out = []
        for b in (True, False):
            m = frozenset(k for k in S if k == MANY or bool(f(k)) == b)
            if m:
                out.append((self.set_fact(st, "?sz:" + T, ("sz", m), (T,)), b))
        return out

    def size_test(self, fr, a, va, b, vb, op, s):
        for v, w, o in ((va, vb, op), (vb, va, REVERSED[op])):
            if v is not None and v[0] == "odd" and w is not None and w[0] == "c" and w[1] in (0, 1) and o in ("==", "!="):
                even = (w[1] == 0) == (o == "==")
                S = frozenset(k for k in self.sizes(s, v[1]) if k == MANY or k % 2 == 0)
                return ([(self.add(self.set_fact(s, "?sz:" + v[1], ("sz", S), (v[1],)), ("pairs", v[1])), even)] if S else []) + [(s, not even)]
            if v is not None and v[0] == "size" and w is not None and w[0] == "c" and isinstance(w[1], int):
                k0 = w[1]
                f = {"==": lambda k: k == k0, "!=": lambda k: k != k0, "<": lambda k: k < k0, "<=": lambda k: k <= k0, ">": lambda k: k > k0, ">=": lambda k: k >= k0}[o]
                out = []
                S = self.sizes(s, v[1])
                for b_ in (True, False):
                    # a list of many elements is longer than anything it is compared with
                    m = frozenset(k for k in S if bool(f(k if k < MANY else 10 ** 9)) == b_)
                    if m:
                        out.append((self.set_fact(s, "?sz:" + v[1], ("sz", m), (v[1],)), b_))
                return out
        return super().size_test(fr, a, va, b, vb, op, s)

    def on_other(self, fr, n, st):
        if n["k"] == "BinaryOperator" and n.get("op") in ("+", "-", "%", "*"):
            out = []
            for s, a in self.expr(fr, n["c"][0], st):
                for s2, b in self.expr(fr, n["c"][1], s):
                    v = None
                    if n["op"] == "%" and a is not None and a[0] == "size" and b == ("c", 2):
                        v = ("odd", a[1])
                    if a is not None and b is not None and a[0] == "c" and b[0] == "c" and type(a[1]) is int and type(b[1]) is int and (n["op"] != "%" or b[1]):
                        v = ("c", {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}.get(n["op"], a[1] % b[1] if n["op"] == "%" else 0))
                    out.append((s2, v))
            return out
        return super().on_other(fr, n, st)

    def access(self, fr, n, st):
        cont, idx = self.subscript(n)
        res = []
        for s0, _ in self.expr(fr, cont, st):
            T = self.place(fr, cont, s0)
            for s, v in self.expr(fr, idx, s0):
                if T is None:
                    res.append((s, None))
                    continue
                self.found["reads"] += 1
                lin = self.linear(fr, idx, s)
                if v is not None and v[0] == "c" and type(v[1]) is int and not self.stepped(fr, idx):
                    k = v[1]
                    ok = all(x > k for x in self.sizes(s, T)) or any(key.startswith("?inb:%s@" % T) and False for key in s.env)
                    if self.rep is not None:
                        if lin is not None and lin[0] is not None and self.in_bounds(s, T, lin[0], lin[1]):
                            ok = True
                        self.rep.check(ok, "elements-exist", fr["f"].at(n), "%s|%s[%d]" % (short_fn(self.root), self.short(T), k),
                                       "element %d is read, and on some path the list may be shorter" % k)
                    s = self.add(s, ("rd", T, k))
                elif lin is not None and lin[0] is not None:
                    if self.rep is not None:
                        if self.in_bounds(s, T, lin[0], lin[1]) or self.by_twos(fr, s, T, lin) or v is not None and v[0] == "c" and type(v[1]) is int and all(x > v[1] for x in self.sizes(s, T)):
                            self.rep.ok("elements-exist")
                        else:
                            self.rep.bad("elements-exist", fr["f"].at(n), "%s|%s" % (short_fn(self.root), self.short(T)), "an element is read, and on some path nothing has established that the list is long enough")
                    s = self.add(s, ("all", T))
                else:
                    if self.rep is not None:
                        self.rep.undecided("elements-exist", fr["f"].at(n), "%s|%s" % (short_fn(self.root), self.short(T)), "which element is read was not worked out")
                    s = self.add(s, ("all", T))
                res.append((s, None))
        return res

    def by_twos(self, fr, s, T, lin):
        """The list is a list of pairs, and the index goes along it in twos."""
        if lin[1] != 1 or ("pairs", T) not in s.ts or not self.in_bounds(s, T, lin[0], 0):
            return False
        ok = 0
        for y in walk(fr["f"]["body"]):
            if y["k"] == "VarDecl" and y.get("d") == lin[0]:
                c = self.const(self.peel(y["init"])) if isinstance(y.get("init"), dict) else None
                ok += 1 if c is not None and c[0] == "c" and type(c[1]) is int and c[1] % 2 == 0 else 100
            elif y["k"] in ("UnaryOperator", "CompoundAssignOperator", "BinaryOperator") and y.get("op") in ("++", "--", "+=", "-=", "=") and (self.peel(y["c"][0]) or {}).get("d") == lin[0]:
                c = self.const(self.peel(y["c"][1])) if y["op"] == "+=" else None
                if not (c is not None and c[0] == "c" and type(c[1]) is int and c[1] % 2 == 0):
                    return False
        return ok == 1

    def stepped(self, fr, idx):
        """The index is counted along."""
        ds = {x["d"] for x in walk(idx) if x["k"] == "DeclRefExpr" and x.get("d")}
        return any(y["k"] in ("UnaryOperator", "CompoundAssignOperator", "BinaryOperator") and y.get("op") in ("++", "--", "+=", "-=") and
                   (self.peel(y["c"][0]) or {}).get("d") in ds for y in walk(fr["f"]["body"]))

    @staticmethod
    def short(T):
        return T.split("@")[0].lstrip("$")

    def linear(self, fr, n, st):
        return super().linear(fr, n, st)

    def on_call(self, fr, n, st, name, key, args):
        s = st
        if n["k"] != "CXXOperatorCallExpr" and name not in ("size", "empty"):
            for a in n.get("c") or ():
                if isinstance(a, dict) and self.container(fr, a):
                    p = self.place(fr, a, s)
                    if p is not None:
                        s = self.add(s, ("all", p))
            if isinstance(n.get("obj"), dict) and self.container(fr, n["obj"]):
                p = self.place(fr, n["obj"], s)
                if p is not None:
                    s = self.add(s, ("all", p))
        if self.maker(n, key):
            c = next((x[1] for x in s.ts if x[0] == "made"), 0)
            s = self.add(self.drop(s, lambda x: x[0] == "made"), ("made", min(2, c + 1)))
        return None if s is st else self.default_call(fr, n, s, name, key, args, n.get("c") or [], n.get("obj"))

    def maker(self, n, key):
        return key in self.makers or n["k"] == "CXXMemberCallExpr" and re.match(r"gcs::Problem::(post\w*|create_\w+)$", strip_targs(qcallee(n))) is not None

    def declare(self, fr, d, st):
        return Engine.declare(self, fr, d, st)

    def used(self, f, T, s, at):
        S = self.sizes(s, T)
        reads = {x[2] for x in s.ts if x[0] == "rd" and x[1] == T}
        if ("all", T) in s.ts or not reads or self.rep is None:
            return
        skip = {0, 1} if any(p["d"] == T for p in f["params"]) else set()
        if MANY in S:
            self.rep.bad("all-elements-are-used", at, "%s|%s" % (short_fn(f), self.short(T)), "elements of this list are read one by one, and nothing stops it from being longer: the rest is silently dropped")
            return
        miss = set(range(max(S))) - reads - skip
        self.rep.check(not miss, "all-elements-are-used", at, "%s|%s" % (short_fn(f), self.short(T)), "element %s of this list is accepted and not read" % ", ".join(map(str, sorted(miss))))

    def scope_end(self, outs, decls):
        f = self.fn_now
        ds = [d["d"] for d in decls if isinstance(d, dict) and d.get("k") == "VarDecl" and d.get("d") and ELEMENTS.match(f.type(d).strip() if "t" in d else "")]
        for kind, s, v in outs:
            if kind != "throw":
                for T in ds:
                    if "IntegerVariableID" not in f.type(next(d for d in decls if isinstance(d, dict) and d.get("d") == T)):
                        self.used(f, T, s, f.loc)
        return Engine.scope_end(self, outs, decls)

    def range_for(self, fr, n, states):
        if isinstance(n.get("range"), dict) and self.container(fr, n["range"]):
            states = [self.add(s, ("all", p)) if (p := self.place(fr, n["range"], s)) is not None else s for s in states]
        posts = any(x["k"] in CALLS and self.maker(x, x.get("f")) for x in walk(n.get("body")))
        if posts:
            self.bodies = getattr(self, "bodies", {})
            self.bodies[id(n.get("body"))] = n
            states = [self.drop(s, lambda x: x[0] == "made") for s in states]
        return Engine.range_for(self, fr, n, states)

    def stmt(self, fr, n, states):
        res = Engine.stmt(self, fr, n, states)
        b = getattr(self, "bodies", {}).get(id(n)) if isinstance(n, dict) else None
        if b is None:
            return res
        out = []
        for kind, s, v in res:
            if kind in ("fall", "continue"):
                self.count(fr["f"], s, fr["f"].at(n))
                s = self.drop(s, lambda x: x[0] == "made")
            out.append((kind, s, v))
        return flow.dedup_out(out)

    def expr(self, fr, n, st):
        return Engine.expr(self, fr, n, st)

    def loop(self, fr, n, states):
        return Engine.loop(self, fr, n, states)

    def count(self, f, s, at):
        if self.rep is None:
            return
        c = next((x[1] for x in s.ts if x[0] == "made"), 0)
        self.rep.check(c == 1, "each-item-makes-one-thing", at, "%s|%d" % (short_fn(f), c), "an item of the document is accepted here and %s is made of it" % ("nothing" if c == 0 else "more than one thing"))


def terms(prog, rep):
    """Documents made of terms: every element read exists, every element is used, every item makes one thing."""
    n = 0
    files = set()
    for k, f in prog.fns.items():
        if f.get("body") and f["file"].endswith(".cc") and not f["file"].endswith(("_test.cc", "_tests.cc")) and f["file"] != "gcs/innards/s_expr.cc":
            if any(x["k"] == "CXXOperatorCallExpr" and x.get("op") == "[]" and "SExpr" in (x.get("f") or "") for x in walk(f["body"])):
                files.add(f["file"])
    for file in sorted(files):
        fns = {k: f for k, f in prog.fns.items() if f["file"] == file and f.get("body") and not f.get("lambda") and not f.get("pattern")}
        edges = {k: {x["f"] for x in walk(f["body"]) if x["k"] in CALLS and x.get("f")} for k, f in fns.items()}
        makers = {k for k, f in fns.items() if any(x["k"] == "CXXMemberCallExpr" and re.match(r"gcs::Problem::post\w*$", strip_targs(qcallee(x))) for x in walk(f["body"]))
                  and not any(x["k"] == "CXXForRangeStmt" for x in walk(f["body"], False))}
        while True:
            more = {k for k, e in edges.items() if e & makers and k not in makers and not in_loop(fns[k], makers)}
            if not more:
                break
            makers |= more
        for k, f in sorted(fns.items()):
            e = Lists(prog, file, makers, None)
            e.root = e.fn_now = f
            try:
                e.run(f, St({}, frozenset()))
                if not e.found["reads"] and k not in makers:
                    continue
                e = Lists(prog, file, makers, rep)
                e.root = e.fn_now = f
                outs = e.run(f, St({}, frozenset()))
            except TooHard as x:
                rep.undecided("analysis", f.loc, short_fn(f), "this function was not followed: %s" % x)
                continue
            n += e.found["reads"]
            for kind, s, v in outs:
                if kind == "throw":
                    continue
                for p in f["params"]:
                    if "SExpr" in f.type(p["t"]) and ELEMENTS.match(f.type(p["t"]).strip()):
                        e.used(f, p["d"], s, f.loc)
                if k in makers:
                    e.count(f, s, f.loc)
    rep.floor("elements of terms read", n, 100)


def in_loop(f, makers):
    return any(x["k"] in ("CXXForRangeStmt", "ForStmt", "WhileStmt") and any(y["k"] in CALLS and y.get("f") in makers for y in walk(x)) for x in walk(f["body"], False))


def numbers(prog, rep):
    """A number read by from_chars is used only when all of its text was one."""
    n = 0
    for k, f in prog.fns.items():
        if not f.get("body") or f["file"].endswith(("_test.cc", "_tests.cc")):
            continue
        calls = [x for x in walk(f["body"]) if x["k"] == "CallExpr" and strip_targs(qcallee(x)) == "std::from_chars"]
        for x in calls:
            n += 1
            names = set()
            for y in walk(f["body"]):
                if y["k"] in ("VarDecl", "DecompositionDecl") and isinstance(y.get("init"), dict) and any(z is x for z in walk(y["init"])):
                    names |= {b["d"] for b in y.get("bind") or () if isinstance(b, dict)} | {y.get("d")}
            tested = {"ec": False, "ptr": False}
            for y in walk(f["body"]):
                if y["k"] in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp") and y.get("op") in ("==", "!="):
                    for z in walk(y):
                        t = f.type(z) if "t" in z else ""
                        if z["k"] == "DeclRefExpr" and z.get("d") in names or z["k"] == "MemberExpr" and z.get("n") in ("ec", "ptr"):
                            if "errc" in t:
                                tested["ec"] = True
                            elif "char *" in t:
                                tested["ptr"] = True
            digits = any(y["k"] in ("ForStmt", "CXXForRangeStmt", "WhileStmt") and any(z["k"] in ("ReturnStmt", "CXXThrowExpr") for z in walk(y)) and
                         {48, 57} <= {z.get("v") for z in walk(y) if z["k"] == "CharacterLiteral"} for y in walk(f["body"], False))
            digits = digits or any(y["k"] == "CallExpr" and strip_targs(qcallee(y)).split("::")[-1] in ("all_of", "none_of", "any_of", "find_if", "find_if_not", "isdigit") for y in walk(f["body"]))
            rep.check(tested["ec"], "numbers-are-whole", f.at(x), short_fn(f) + "|failed", "whether a number was read at all is not checked before it is used")
            rep.check(tested["ptr"] or digits, "numbers-are-whole", f.at(x), short_fn(f) + "|rest", "whether all of the text was part of the number is not checked: what follows it is silently dropped")
    rep.floor("numbers read by from_chars", n, 2)


class Streams(Engine):
    """Numbers and words extracted from a string stream."""

    def __init__(self, prog, rep, f):
        super().__init__(prog)
        self.rep, self.root = rep, f
        self.n = 0

    def should_inline(self, rec, n):
        return False

    def extraction(self, fr, n, st):
        """(stream place, numeric) of  in >> x."""
        n = self.peel(n)
        if not isinstance(n, dict):
            return None
        if n["k"] == "CXXMemberCallExpr" and fname(n) in ("operator bool",) and isinstance(n.get("obj"), dict):
            return self.extraction(fr, n["obj"], st)
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == ">>" and len(n.get("c") or ()) == 2 and "stream" in (n.get("f") or ""):
            p = self.place(fr, n["c"][0], st)
            t = plain(fr["f"].type(self.peel(n["c"][1]))) if "t" in (self.peel(n["c"][1]) or {}) else ""
            if p is None:
                return None
            return p, re.match(r"^(unsigned )?(int|long|long long|short|double|float)$", t) is not None
        return None

    def outcome(self, st, x):
        self.n += 1
        p, num = x
        clean = frozenset(y for y in st.ts if y[1] != p)
        if num:
            return [(St(st.env, clean | {("rest", p)}, st.trace), True), (St(st.env, clean | {("failed", p)}, st.trace), False)]
        return [(St(st.env, clean | {("rest", p)} if False else st.ts, st.trace), True), (St(st.env, clean, st.trace), False)]

    def on_cond(self, fr, n, st):
        x = self.extraction(fr, n, st)
        if x is not None:
            return self.outcome(st, x)
        if n["k"] in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp") and n.get("op") in ("==", "!="):
            for y in n.get("c") or ():
                y = self.peel(y)
                if isinstance(y, dict) and y["k"] == "CXXMemberCallExpr" and fname(y) in ("peek", "get") and "istream" in (y.get("f") or ""):
                    p = self.place(fr, y["obj"], st)
                    done = St(st.env, frozenset(z for z in st.ts if z != ("rest", p)), st.trace)
                    return [(done, n["op"] == "=="), (st, n["op"] != "==")]
        if n["k"] == "CXXMemberCallExpr" and fname(n) == "eof" and isinstance(n.get("obj"), dict):
            p = self.place(fr, n["obj"], st)
            return [(St(st.env, frozenset(z for z in st.ts if z != ("rest", p)), st.trace), True), (st, False)]
        return None

    def on_other(self, fr, n, st):
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == ">>":
            x = self.extraction(fr, n, st)
            if x is not None:
                return [(s, None) for s, b in self.outcome(st, x)]
        return None


def streams(prog, rep):
    n = 0
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if not f.get("body") or f.get("pattern") or f["file"].endswith(("_test.cc", "_tests.cc")):
                continue
            if not any(x["k"] == "CXXOperatorCallExpr" and x.get("op") == ">>" and "istream" in (x.get("f") or "") for x in walk(f["body"])):
                continue
            e = Streams(prog, rep, f)
            try:
                outs = e.run(f, St({}, frozenset()))
            except TooHard as x:
                rep.undecided("analysis", f.loc, short_fn(f), str(x))
                continue
            n += 1
            for kind, s, v in outs:
                if kind == "return":
                    rep.check(not any(x[0] == "failed" for x in s.ts), "entries-are-whole", f.loc, short_fn(f) + "|failed", "this can return normally after failing to read a number from the text: running out of text part way through an entry looks like having read everything")
                    rep.check(not any(x[0] == "rest" for x in s.ts), "entries-are-whole", f.loc, short_fn(f) + "|rest", "this can return normally without having looked for text after the number it read")
            # a closing bracket that was looked for
            for y in walk(f["body"]):
                pass
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if not f.get("body") or f.get("pattern") or not f["file"].startswith("examples/"):
                continue
            for y in walk(f["body"]):
                if y["k"] == "VarDecl" and isinstance(y.get("init"), dict):
                    c = next((z for z in walk(y["init"], False) if z["k"] == "CXXMemberCallExpr" and fname(z) in ("rfind", "find_last_of") and any(w.get("v") in (93, 125, "]", "}") for w in walk(z))), None)
                    if c is None:
                        continue
                    n += 1
                    after = False
                    for z in walk(f["body"]):
                        if z["k"] == "CXXMemberCallExpr" and fname(z) in ("find_first_not_of", "find_first_of", "find", "substr") and z.get("c"):
                            pos = z["c"][0] if fname(z) == "substr" else z["c"][1] if len(z["c"]) > 1 else None
                            if isinstance(pos, dict) and any(w["k"] == "DeclRefExpr" and w.get("d") == y["d"] for w in walk(pos)):
                                after = True
                    rep.check(after, "nothing-is-dropped", f.at(y), short_fn(f) + "|after", "the text after the closing bracket found here is never looked at")
    rep.floor("functions that read numbers from text", n, 3)


def alternatives(prog, rep):
    """Which kind of term it is has been established where its contents are taken out."""
    n = 0
    for k, f in prog.fns.items():
        if not f["file"].startswith(ir.REPO) and not f["file"].startswith("gcs/innards/s_expr"):
            continue
        if f.get("cls") != "gcs::innards::SExpr" or not f.get("body"):
            continue
        for x in walk(f["body"]):
            if x["k"] == "CallExpr" and strip_targs(qcallee(x)) == "std::get":
                n += 1
                e = Alternative(prog, f)
                e.rep, e.target = rep, x
                e.bad = None
                try:
                    e.run(f, St({}, frozenset()))
                except TooHard as err:
                    rep.undecided("contents-exist", f.loc, short_fn(f), str(err))
                    continue
                rep.check(e.bad is None, "contents-exist", f.at(x), short_fn(f), "the contents of a term are taken out as one kind on a path where it has not been established to be that kind")
    rep.floor("contents taken out of terms", n, 2)


class Alternative(Engine):
    def __init__(self, prog, f):
        super().__init__(prog)
        self.file = f["file"]

    def should_inline(self, rec, n):
        return rec["file"] == self.file

    def targ(self, n):
        m = re.search(r"(?:get|holds_alternative|get_if)<(.*?)(?:, std::basic_string|, std::vector|, gcs|>)", n.get("f") or "")
        f = n.get("f") or ""
        i = f.find("<")
        depth, j = 0, i
        for j in range(i, len(f)):
            if f[j] in "<(":
                depth += 1
            elif f[j] in ">)":
                depth -= 1
            if depth == 1 and f[j] == "," or depth == 0:
                break
        return f[i + 1:j]

    def on_cond(self, fr, n, st):
        if n["k"] == "CallExpr" and strip_targs(qcallee(n)) == "std::holds_alternative":
            p = self.place(fr, n["c"][0], st)
            key = "?alt:%s:%s" % (p, self.targ(n))
            v = st.env.get(key)
            if v is not None:
                return [(st, v[1])]
            self.deps[key] = (p or "",)
            return [(St({**st.env, key: ("c", b)}, st.ts, st.trace), b) for b in (True, False)]
        return None

    def on_other(self, fr, n, st):
        if n["k"] == "CallExpr" and strip_targs(qcallee(n)) == "std::holds_alternative":
            return [(s, ("c", b)) for s, b in self.on_cond(fr, n, st)]
        if n is self.target:
            p = self.place(fr, n["c"][0], st)
            if st.env.get("?alt:%s:%s" % (p, self.targ(n))) != ("c", True):
                self.bad = n
        return None


def run():
    rep = Report("C16", "other",
                 rule="in every function that reads text by position, every element read lies inside the text on the path that reads it, every loop and every recursive call moves the position "
                      "on before it repeats, what opens with a bracket is accepted only with its closing bracket, the whole text is looked at before anything is returned as read, characters no "
                      "rule takes are refused rather than passed over, digits are accumulated only below a test against the largest value, and only documented errors leave the entry points; "
                      "in every function that reads a document made of terms, each element read exists, each element of a fixed-length item is used, and each item makes exactly one thing; "
                      "a number read by from_chars is used only if all its characters were; a number read from a stream is a whole entry",
                 explanation="The functions are followed path by path with facts about positions (inside the text, compared with which character, moved on since the loop began), with helper "
                             "functions followed in place where they take the position by reference. How deeply brackets are nested is not bounded against the stack.")
    prog = ir.Program(ir.lib_units() + ["examples/dzn_test.cc"])
    counts = {}
    files = parser_files(prog)
    for file in sorted(files):
        rep.part("positions in " + file, analyse_file, prog, rep, file, counts)
    rep.part("kinds of term", alternatives, prog, rep)
    rep.part("documents", terms, prog, rep)
    rep.part("numbers", numbers, prog, rep)
    rep.part("streams", streams, prog, rep)
    rep.floor("reads of an element of a text", counts.get("reads", 0), 12)
    rep.floor("functions followed", counts.get("functions", 0), 6)
    rep.floor("loops that examine a text", counts.get("loops", 0), 4)
    return rep.finish(prog)


if __name__ == "__main__":
    main(run)
