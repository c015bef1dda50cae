"""C12: a solve is reproducible."""
import re

import ir
from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS, root_of, this_path
from common import Report, main
from c17 import plain
from c07 import short_fn
import props

SCALAR = re.compile(r"^(const )?(bool|char|short|int|long|long long|signed char|unsigned[a-z ]*|float|double|[^<>]*\*( const)?)$")
ENGINES = re.compile(r"std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|mt19937|minstd_rand|default_random_engine)")
CLOCK = re.compile(r"(clock::now|^time$|^clock$|^gettimeofday$|^clock_gettime$|^std::time$|^std::clock$|::time_since_epoch$)")
IDENTITY = re.compile(r"(^getpid$|^gettid$|this_thread::get_id|^pthread_self$|hardware_concurrency|^gethostname$|^getrandom$|^arc4random)")
LEGACY_RANDOM = ("rand", "std::rand", "random", "drand48", "lrand48")
# Types of objects with static storage that may change: reviewed, and checked to be counters nothing decides on.
COUNTERS = ("OverloadInstrumentation",)


def short_type(t):
    return t if len(t) < 90 else t[:87] + "..."


def bodies(prog):
    """Every function body once: instances where there are any, as a pattern's types are not known."""
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if f.get("body"):
                yield f


# ---------------------------------------------------------------- objects that outlive a solve
def static_state(prog, rep):
    n = 0
    written = {}
    for f in bodies(prog):
        for x in walk(f["body"]):
            t = None
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and x.get("op") in props.ASSIGN:
                t = x["c"][0]
            elif x["k"] in ("UnaryOperator", "CXXOperatorCallExpr") and x.get("op") in ("++", "--"):
                t = x["c"][0]
            elif x["k"] == "CXXMemberCallExpr" and not x.get("const") and isinstance(x.get("obj"), dict):
                t = x["obj"]
            elif x["k"] == "UnaryOperator" and x.get("op") == "&":
                t = x["c"][0]
            if isinstance(t, dict):
                r, _ = root_of(t)
                if isinstance(r, dict) and r["k"] == "DeclRefExpr":
                    written.setdefault((r["d"], ), []).append((f, x))
                elif isinstance(r, dict) and r["k"] == "MemberExpr":
                    written.setdefault((r.get("d"), ), []).append((f, x))
    for k, v in prog.vars.items():
        n += 1
        t = v.type(v["t"])
        if v.get("constexpr") or v.get("const") and not props_mutable(prog, t):
            rep.ok("static-state", "%s is constant" % k)
            continue
        if v["file"].endswith(("_test.cc", "_tests.cc")):
            continue
        base = plain(t).replace("(anonymous namespace)::", "").split("::")[-1]
        if base in COUNTERS:
            counters_only(prog, rep, k, v)
            continue
        rep.bad("static-state", v.loc, k, "'%s' is a %s that outlives a solve and can change, so one solve can influence another" % (k.split("@")[0], short_type(t)))
    seen = set()
    for f in bodies(prog):
        for x in walk(f["body"]):
            if x["k"] != "VarDecl" or not x.get("static"):
                continue
            at = (f.at(x), x["n"])
            if at in seen:
                continue
            seen.add(at)
            n += 1
            t = f.type(x)
            sig = "%s|%s" % (context(f), x["n"])
            if f.file and f.file.endswith("cake_probe.hh"):
                continue
            w = written.get((x["d"],), [])
            const = x.get("constexpr") or t.startswith("const ") or t.rstrip().endswith(" const")
            if w and not const:
                rep.bad("static-state", w[0][0].at(w[0][1]), sig, "the static '%s' changes while solving, so one solve can influence another" % x["n"])
                continue
            if not const and not SCALAR.match(t):
                rep.bad("static-state", f.at(x), sig, "the static '%s' is a %s that can change and outlives a solve" % (x["n"], short_type(t)))
                continue
            own = local_names(f, x)
            dep = [y for y in walk(x.get("init")) if y["k"] == "DeclRefExpr" and not y.get("fn") and y["d"] in own or y["k"] == "CXXThisExpr"]
            if dep:
                rep.bad("static-state", f.at(x), sig, "the static '%s' keeps what the first call was given, so a later solve sees an earlier solve's value" % x["n"])
            else:
                rep.ok("static-state", "%s is set once, from nothing a solve is given" % x["n"])
    rep.floor("objects with static storage", n, 60)


def context(f):
    s = short_fn(f)
    return f.loc.split(":")[0] if s.startswith("lambda") else s


def local_names(f, static):
    """Parameters and non-static locals of the function an initialiser could read."""
    out = {p["d"] for p in f["params"]}
    inner = set(y["d"] for y in walk(static.get("init")) if y["k"] == "VarDecl")
    for y in walk(f.get("body")):
        if y["k"] == "VarDecl" and not y.get("static") and not y.get("constexpr") and y["d"] not in inner:
            out.add(y["d"])
        if y["k"] == "LambdaExpr":
            inl = set()
            for z in walk(static.get("init")):
                if z["k"] == "LambdaExpr":
                    inl |= {p["d"] for p in z.get("params") or ()}
            out |= {p["d"] for p in y.get("params") or ()} - inl
    return out


def props_mutable(prog, t):
    t = plain(t)
    c = prog.classes.get(t)
    return bool(c) and any(x.get("mutable") for x in c.get("fields") or ())


def counters_only(prog, rep, k, v):
    """The object is only ever counted up in; nothing reads it but its own members."""
    t = plain(v.type(v["t"]))
    d = v.key
    for f in bodies(prog):
        if f.get("cls") == t:
            continue
        for x in walk(f["body"]):
            if x["k"] == "DeclRefExpr" and x.get("d") == d and not counted(f["body"], x):
                rep.bad("static-state", f.at(x), k + "|read", "'%s' outlives a solve and is read here for something other than counting" % k.split("@")[0])
                return
    rep.ok("static-state", "%s is only counted up in" % k)


def counted(body, ref):
    """The reference is the target of an increment or a compound addition whose value is not used, or a call of a member on it."""
    for x in walk(body):
        tgt = None
        if x["k"] in ("UnaryOperator",) and x.get("op") in ("++",):
            tgt = x["c"][0]
        elif x["k"] in ("CompoundAssignOperator", "BinaryOperator", "CXXOperatorCallExpr") and x.get("op") == "+=":
            tgt = x["c"][0]
        elif x["k"] == "CXXOperatorCallExpr" and x.get("op") == "++":
            tgt = x["c"][0]
        if tgt is not None and any(y is ref for y in walk(tgt)):
            return True
    return False


# ---------------------------------------------------------------- entropy
def callgraph(prog):
    """Callers' keys to callees' keys, with lambdas belonging to where they are written."""
    g = {}
    for f in bodies(prog):
        out = g.setdefault(f.key, set())
        for x in walk(f["body"]):
            if x.get("f") and (x["k"] in CALLS or x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "LambdaExpr", "DeclRefExpr")):
                out.add(x["f"])
            elif x["k"] == "DeclRefExpr" and x.get("fn") and x.get("d"):
                out.add(x["d"])
    return g


def entropy(prog, rep):
    g = callgraph(prog)
    direct = {}
    for f in bodies(prog):
        for x in walk(f["body"]):
            q = strip_targs(qcallee(x)) if x.get("f") else ""
            ty = f.type(x) if "t" in x and x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "VarDecl") else ""
            if "std::random_device" in q or "std::random_device" in ty:
                direct.setdefault(f.key, f.at(x))
            elif x["k"] in CALLS and (IDENTITY.search(q) or q in LEGACY_RANDOM):
                rep.bad("entropy", f.at(x), "%s|%s" % (context(f), q), "'%s' differs from one run to the next" % q)
            elif x["k"] in CALLS:
                rep.by_kind.setdefault("entropy", [0, 0])
    rev = {}
    for a, bs in g.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    reach, stack = {}, [(k, [k]) for k in direct]
    while stack:
        k, path = stack.pop()
        if k in reach:
            continue
        reach[k] = path
        for c in rev.get(k, ()):
            stack.append((c, path + [c]))
    n = 0
    for k, path in sorted(reach.items()):
        f = prog.fn(k)
        n += 1
        seeded = [p for p in f["params"] if re.search(r"\b(int|long|unsigned|Integer|mt19937|seed)", plain(f.type(p["t"])))]
        callers = [c for c in rev.get(k, ()) if c not in reach]
        name = short_fn(f)
        if seeded:
            rep.bad("entropy", f.loc, name + "|seeded", "this takes a seed, yet what it does can come from a random device (by %s)" % " <- ".join(short_fn(prog.fn(x)) for x in path))
        elif k.startswith("lambda@") or "(anonymous namespace)" in k or "random" in name.split("::")[-1]:
            rep.ok("entropy", "%s is an unseeded random heuristic" % name)
        else:
            rep.bad("entropy", f.loc, name + "|unseeded", "this is not one of the random heuristics, yet what it does can come from a random device (by %s)" % " <- ".join(short_fn(prog.fn(x)) for x in path))
    rep.floor("functions that reach a random device", n, 2)
    # seeds of generators
    m = 0
    for f in bodies(prog):
        for x in walk(f["body"]):
            if "t" not in x and x["k"] not in CALLS:
                continue
            made = x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and ENGINES.search(f.type(x)[:60]) or x["k"] == "CallExpr" and strip_targs(qcallee(x)) in ("std::make_shared", "std::make_unique") and ENGINES.search(f.type(x)[:120])
            if not made:
                continue
            m += 1
            for a in x.get("c") or ():
                bad = address_or_time(f, a)
                if bad:
                    rep.bad("entropy", f.at(x), context(f) + "|seed", "a generator is seeded from %s" % bad)
                    break
            else:
                rep.ok("entropy", "%s: seeded from what it is given" % f.at(x))
    rep.floor("generators made", m, 1)


def address_or_time(f, n):
    for y in walk(n):
        if y["k"] == "CXXReinterpretCastExpr":
            return "an address"
        if y["k"] in CALLS and CLOCK.search(strip_targs(qcallee(y))):
            return "the time"
    return None


# ---------------------------------------------------------------- the time
def times(prog, rep):
    """What a clock says is only ever reported."""
    fields = {}
    n = 0
    for _ in range(4):
        before = len(fields)
        n = 0
        for f in bodies(prog):
            n += one_time(prog, rep, f, fields, len(fields))
        if len(fields) == before:
            break
    rep.extra["fields_that_hold_times"] = sorted(fields)
    rep.floor("uses of a clock", n, 2)


def is_time(f, n, tainted, fields):
    for y in walk(n):
        if y["k"] in CALLS and CLOCK.search(strip_targs(qcallee(y))):
            return True
        if y["k"] == "DeclRefExpr" and y.get("d") in tainted:
            return True
        if y["k"] == "MemberExpr" and y.get("d") in fields:
            return True
    return False


def one_time(prog, rep, f, fields, rounds):
    body = f["body"]
    calls = [y for y in walk(body) if y["k"] in CALLS and CLOCK.search(strip_targs(qcallee(y)))]
    if not calls and not any(y["k"] == "MemberExpr" and y.get("d") in fields for y in walk(body)):
        return 0
    printing = "ostream" in (f.type(f["ret"]) if "ret" in f else "") or any("ostream" in f.type(p["t"]) for p in f["params"])
    tainted = set()
    for _ in range(5):
        k = len(tainted)
        for x in walk(body):
            if x["k"] == "VarDecl" and isinstance(x.get("init"), dict) and is_time(f, x["init"], tainted, fields) and x["init"]["k"] != "LambdaExpr":
                tainted.add(x["d"])
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and x.get("op") in props.ASSIGN and is_time(f, x["c"][1], tainted, fields):
                t = strip(x["c"][0])
                if t["k"] == "DeclRefExpr":
                    tainted.add(t["d"])
                elif t["k"] == "MemberExpr" and t.get("d"):
                    fields.setdefault(t["d"], f.at(x))
        if len(tainted) == k:
            break
    if printing:
        return len(calls)
    ok = True
    for x in walk(body):
        cond = x.get("cond") if x["k"] in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt", "ConditionalOperator", "SwitchStmt") else None
        if x["k"] == "ConditionalOperator" and not isinstance(cond, dict) and x.get("c"):
            cond = x["c"][0]
        if isinstance(cond, dict) and is_time(f, cond, tainted, fields):
            ok = False
            rep.bad("time-is-only-reported", f.at(cond), context(f), "what happens next depends on how much time has passed")
        if x["k"] in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp") and x.get("op") in ("<", ">", "<=", ">=", "==", "!=", "<=>") and any(isinstance(c, dict) and is_time(f, c, tainted, fields) for c in x.get("c") or ()):
            ok = False
            rep.bad("time-is-only-reported", f.at(x), context(f), "a decision is made on how much time has passed")
        if x["k"] == "ReturnStmt" and x.get("c") and isinstance(x["c"][0], dict) and calls and is_time(f, x["c"][0], tainted, ()) and "time_point" not in f.type(f["ret"]) and "duration" not in f.type(f["ret"]):
            rep.undecided("time-is-only-reported", f.at(x), context(f), "a time is returned, and what becomes of it was not followed")
    if ok and calls:
        rep.ok("time-is-only-reported", f.at(calls[0]))
    return len(calls)


# ---------------------------------------------------------------- addresses
KEYED = re.compile(r"std::(map|set|multimap|multiset|unordered_map|unordered_set|unordered_multimap|unordered_multiset|less|greater|hash|priority_queue)<([^<>,]*\*|std::(?:shared|unique|weak)_ptr<|std::thread::id|std::reference_wrapper<)")


def addresses(prog, rep):
    n = 0
    seen = set()

    def scan(rec, what):
        nonlocal n
        for t in rec.get("T") or ():
            m = KEYED.search(t)
            if not m:
                continue
            if "std::_" in t[:6] or (rec.file, m.group(0)) in seen:
                continue
            seen.add((rec.file, m.group(0)))
            rep.bad("addresses-decide-nothing", rec.loc, "%s|%s" % (rec.file, m.group(0)), "%s orders or hashes by address (%s), which differs from one run to the next" % (what, short_type(t)))
    for k, c in prog.classes.items():
        scan(c, k)
        n += 1
    for f in bodies(prog):
        n += 1
        if f.file and not f.file.startswith(("gcs/", "minizinc/", "scp/", "util/")):
            continue
        scan(f, short_fn(f))
        for x in walk(f["body"]):
            if x["k"] in ("CXXReinterpretCastExpr", "CStyleCastExpr", "BuiltinBitCastExpr") and x.get("c") and "t" in x:
                s = x["c"][0]
                if SCALAR.match(f.type(x)) and not f.type(x).rstrip().endswith(("*", "* const")) and isinstance(s, dict) and "t" in s and f.type(s).rstrip().endswith("*"):
                    rep.bad("addresses-decide-nothing", f.at(x), context(f) + "|cast", "an address is turned into a number, which differs from one run to the next")
            if x["k"] == "BinaryOperator" and x.get("op") in ("<", ">", "<=", ">=") and all(isinstance(c, dict) and "t" in c and f.type(c).rstrip().endswith(("*", "* const")) for c in x["c"]):
                # positions within one array are fine: both sides the same local array or iterators over it
                rts = [root_of(c)[0] for c in x["c"]]
                if all(isinstance(r, dict) and r["k"] == "UnaryOperator" or isinstance(r, dict) and r["k"] == "CXXMemberCallExpr" and fname(r) == "get" for r in rts):
                    rep.bad("addresses-decide-nothing", f.at(x), context(f) + "|compare", "two addresses are ordered, which can differ from one run to the next")
    rep.by_kind.setdefault("addresses-decide-nothing", [0, 0])
    rep.obligations += n
    rep.discharged += n - sum(1 for s in rep.violations if s.startswith("addresses-decide-nothing"))
    rep.by_kind["addresses-decide-nothing"][0] += n
    rep.by_kind["addresses-decide-nothing"][1] += n
    rep.floor("classes and functions looked through for addresses", n, 3000)


# ---------------------------------------------------------------- uninitialised values
class Assigned:
    """Definite assignment of one local variable, over structured statements."""

    def __init__(self, d):
        self.d, self.bad, self.unsure = d, None, False

    def refs(self, n):
        return any(y["k"] == "DeclRefExpr" and y.get("d") == self.d for y in walk(n))

    def expr(self, n, a):
        if not isinstance(n, dict) or a == "yes":
            return a
        k = n["k"]
        if k == "DeclRefExpr":
            if n.get("d") == self.d and a != "yes" and self.bad is None:
                if a == "maybe":
                    self.unsure = True
                else:
                    self.bad = n
            return a
        if k in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=":
            t = n["c"][0]
            a = self.expr(n["c"][1], a)
            r, parts = root_of(t)
            if isinstance(r, dict) and r["k"] == "DeclRefExpr" and r.get("d") == self.d:
                return "yes"
            return self.expr(t, a)
        if k == "UnaryOperator" and n.get("op") == "&" and self.refs(n):
            return "yes"
        if k == "LambdaExpr":
            return "yes" if self.refs(n) else a
        if k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            a = self.expr(n["c"][0], a)
            b = self.expr(n["c"][1], a)
            return a if b == a else "maybe"
        if k == "ConditionalOperator":
            cs = n.get("c") or []
            a = self.expr(n.get("cond") or cs[0], a)
            bs = [self.expr(c, a) for c in cs[-2:]]
            return bs[0] if bs[0] == bs[1] else "maybe"
        if k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            for c in kids(n):
                s = strip(c)
                if isinstance(s, dict) and s["k"] == "DeclRefExpr" and s.get("d") == self.d and c is s and k != "CXXOperatorCallExpr":
                    a = "yes"        # handed over by reference or already read elsewhere: settled by the callee
                else:
                    a = self.expr(c, a)
            return a
        for c in kids(n):
            a = self.stmt(c, a)
        return a

    def join(self, xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        return xs[0] if all(x == xs[0] for x in xs) else "maybe"

    def stmt(self, n, a):
        """The variable's state after a statement; None if it does not fall through."""
        if not isinstance(n, dict) or a is None:
            return a
        k = n["k"]
        if k == "CompoundStmt":
            for c in n.get("c") or ():
                a = self.stmt(c, a)
                if a is None:
                    return None
            return a
        if k == "IfStmt":
            a = self.stmt(n.get("init"), a)
            a = self.stmt(n.get("var"), a)
            a = self.expr(n.get("cond"), a)
            return self.join([self.stmt(n.get("then"), a), self.stmt(n.get("else"), a) if isinstance(n.get("else"), dict) else a])
        if k in ("ForStmt", "WhileStmt", "CXXForRangeStmt"):
            a = self.stmt(n.get("init"), a)
            a = self.expr(n.get("range"), a)
            a = self.expr(n.get("cond"), a)
            b = self.stmt(n.get("body"), a)
            self.expr(n.get("inc"), b if b is not None else a)
            forever = k != "CXXForRangeStmt" and (n.get("cond") is None or strip(n["cond"]).get("v") in (True, "true", 1))
            return b if forever and b is not None else a if b in (a, None) else "maybe"
        if k == "DoStmt":
            b = self.stmt(n.get("body"), a)
            b = a if b is None else b
            return self.expr(n.get("cond"), b)
        if k == "SwitchStmt":
            a = self.expr(n.get("cond"), a)
            if not self.refs(n.get("body")):
                return a
            self.stmt(n.get("body"), "maybe")
            return "maybe"
        if k in ("CXXTryStmt",):
            b = a
            for c in kids(n):
                b2 = self.stmt(c, a)
                b = b if b2 in (None, b) else "maybe"
            return b
        if k in ("ReturnStmt", "CoreturnStmt"):
            for c in kids(n):
                self.expr(c, a)
            return None
        if k in ("BreakStmt", "ContinueStmt", "CXXThrowExpr", "GotoStmt"):
            for c in kids(n):
                self.expr(c, a)
            return None
        if k == "DeclStmt":
            for c in kids(n):
                a = self.stmt(c, a)
            return a
        if k == "VarDecl":
            if n.get("d") == self.d:
                return a
            return self.expr(n.get("init"), a)
        return self.expr(n, a)


def loop_vars(body):
    return {x["var"]["d"] for x in walk(body) if x["k"] == "CXXForRangeStmt" and isinstance(x.get("var"), dict) and x["var"].get("d")}


def blank_class(prog, t, seen=()):
    """A class whose default-initialised objects have scalar members nothing sets."""
    t = plain(t)
    c = prog.classes.get(t)
    if c is None or c.get("pattern") or t in seen:
        return []
    if any(prog.fn(m) is not None and "(ctor)" in m and not prog.fn(m).get("params") and prog.fn(m).get("body") for m in c.get("methods") or ()):
        return []
    out = []
    for x in c.get("fields") or ():
        if "init" in x:
            continue
        ft = plain(c.type(x["t"]))
        if SCALAR.match(ft) or ft in prog.enums or ft.startswith("std::array<") and SCALAR.match(props.outer(ft)[1][0]):
            out.append(x["n"])
        elif blank_class(prog, ft, seen + (t,)):
            out.append(x["n"])
    return out


def uninitialised(prog, rep):
    n = 0
    seen = set()
    for f in bodies(prog):
        lv = None
        for x in walk(f["body"]):
            if x["k"] != "VarDecl" or x.get("static") or x.get("bind"):
                continue
            t = f.type(x)
            init = x.get("init")
            scalar = "init" not in x and (SCALAR.match(t) or t in prog.enums)
            blank = []
            if not scalar and (init is None or isinstance(init, dict) and init["k"] == "CXXConstructExpr" and not list(kids(init)) and not init.get("zero")):
                blank = blank_class(prog, t)
            if not scalar and not blank:
                continue
            lv = loop_vars(f["body"]) if lv is None else lv
            if x["d"] in lv or (f.at(x), x["n"]) in seen:
                continue
            seen.add((f.at(x), x["n"]))
            n += 1
            sig = "%s|%s" % (context(f), x["n"])
            if blank:
                set_ = {y["c"][0]["n"] for y in walk(f["body"]) if y["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and y.get("op") == "=" and isinstance(y["c"][0], dict) and y["c"][0]["k"] == "MemberExpr" and root_of(y["c"][0])[0].get("d") == x["d"]}
                left = [b for b in blank if b not in set_]
                if not left:
                    rep.ok("every-value-is-set", "%s: every member of '%s' is set" % (f.at(x), x["n"]))
                else:
                    rep.undecided("every-value-is-set", f.at(x), sig, "member '%s' of '%s' is not set where it is made" % (left[0], x["n"]))
                continue
            a = Assigned(x["d"])
            blk = block_of(f["body"], x)
            a.stmt(blk, "no")
            if a.bad is not None:
                rep.bad("every-value-is-set", f.at(a.bad), sig, "'%s' is read here before anything has been stored in it" % x["n"])
            elif a.unsure and not_yet_sure(f, blk, x):
                rep.undecided("every-value-is-set", f.at(x), sig, "whether '%s' is always stored to before it is read was not settled" % x["n"])
            else:
                rep.ok("every-value-is-set", "%s %s" % (f.at(x), x["n"]))
    # members set by constructors
    for k, c in prog.classes.items():
        if c.get("pattern"):
            continue
        need = []
        for x in c.get("fields") or ():
            t = plain(c.type(x["t"]))
            if "init" not in x and (SCALAR.match(t) or t in prog.enums):
                need.append(x["n"])
        if not need:
            continue
        for m in c.get("methods") or ():
            f = prog.fn(m)
            if f is None or "(ctor)" not in m or not f.get("body") or f.get("pattern"):
                continue
            ps = f["params"]
            if len(ps) == 1 and plain(f.type(ps[0]["t"]).rstrip("& ").replace("const ", "")) == plain(k):
                continue
            inits = f.get("inits") or ()
            got = {i.get("n") for i in inits}
            if any(i.get("delegating") or (i.get("n") is None and plain(str(i.get("base") or "")) == plain(k)) for i in inits):
                continue
            body = set_by(prog, f)
            for x in need:
                n += 1
                rep.check(x in got or x in body or any(x in made_by for made_by in creators_set(prog, k)), "every-value-is-set", f.loc, "%s|%s" % (k, x), "a constructor of %s leaves '%s' with no value" % (k.split("::")[-1], x))
    rep.floor("variables and members with no initial value of their own", n, 60)


def set_by(prog, f, seen=()):
    """The members a constructor assigns, itself or in the object's functions it calls."""
    out = set()
    if f is None or f.key in seen or not f.get("body"):
        return out
    for y in walk(f["body"]):
        if y["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and y.get("op") == "=":
            p = this_path(y["c"][0])
            if p:
                out.add(p.split(".")[0])
        elif y["k"] == "CXXMemberCallExpr" and isinstance(y.get("obj"), dict) and strip(y["obj"])["k"] == "CXXThisExpr":
            out |= set_by(prog, prog.fn(y.get("f")), tuple(seen) + (f.key,))
    return out


def creators_set(prog, k):
    """For an object made by another's constructor: the members every such constructor goes on to assign."""
    each = []
    for f in prog.fns.values():
        if "(ctor)" not in f.key or not (f.get("body") or f.get("inits")) or plain(f.get("cls") or "") == plain(k):
            continue
        made = False
        for i in f.get("inits") or ():
            for y in walk(i.get("init") or i.get("e")):
                if y["k"] in CALLS and strip_targs(qcallee(y)) in ("std::make_unique", "std::make_shared") and ("<" + k) in f.type(y).replace("std::unique_ptr", "").replace("std::shared_ptr", ""):
                    made = True
        if made:
            each.append({y["c"][0]["n"] for y in walk(f["body"]) if y["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and y.get("op") == "=" and isinstance(y["c"][0], dict) and y["c"][0]["k"] == "MemberExpr"})
    return [set.intersection(*each)] if each else []


def not_yet_sure(f, blk, x):
    return True


def block_of(body, decl):
    """The innermost block that directly declares a variable."""
    best = body
    for y in walk(body):
        if y["k"] == "CompoundStmt":
            for c in y.get("c") or ():
                if isinstance(c, dict) and (c is decl or c["k"] == "DeclStmt" and any(z is decl for z in kids(c))):
                    best = y
    return best


# ---------------------------------------------------------------- solving leaves the problem as it was
def derives(prog, k, base, seen=()):
    c = prog.classes.get(k)
    if c is None or k in seen:
        return False
    return any(plain(b) == base or derives(prog, plain(b), base, seen + (k,)) for b in c.get("bases") or ())


PROBLEM = "gcs::Problem"
BUILDERS = ("post", "post_named", "add_presolver", "minimise", "maximise", "create_integer_variable", "create_integer_variable_vector", "create_integer_variable_array")


def problem_kept(prog, rep):
    """Solving works on copies: of the state, of each constraint; and changes nothing in the problem."""
    n = 0
    for k, f in prog.fns.items():
        if f.get("cls") != PROBLEM or not f.get("body") or not f.get("const"):
            continue
        for x in walk(f["body"]):
            w = write_target(x)
            if w is None:
                continue
            p = this_path(w)
            r, parts = root_of(w)
            if p is None and not (isinstance(r, dict) and r["k"] == "CXXThisExpr") and not loops_over_own(f, r):
                continue
            rep.bad("problem-is-kept", f.at(x), short_fn(f), "a problem is changed by %s, which solving calls: a second solve would not see the same problem" % short_fn(f))
            break
        else:
            n += 1
            rep.ok("problem-is-kept", short_fn(f))
    rep.floor("read-only functions of a problem", n, 5)
    # installs are made on fresh copies
    m = 0
    for k, f in prog.fns.items():
        if f.get("cls") != PROBLEM or not f.get("body"):
            continue
        for x in walk(f["body"]):
            if x["k"] == "CXXMemberCallExpr" and fname(x) == "install" and strip_targs(qcallee(x)).startswith("gcs::"):
                m += 1
                r, _ = root_of(x.get("obj"))
                src = None
                if isinstance(r, dict) and r["k"] == "DeclRefExpr":
                    src = next((strip(y.get("init")) for y in walk(f["body"]) if y["k"] == "VarDecl" and y.get("d") == r["d"] and isinstance(y.get("init"), dict)), None)
                elif isinstance(r, dict):
                    src = r
                ok = isinstance(src, dict) and src["k"] == "CXXMemberCallExpr" and fname(src) == "clone"
                if not ok and isinstance(src, dict) and src["k"] in CALLS:
                    rep.undecided("installs-are-made-on-copies", f.at(x), short_fn(f), "where the constraint installed here comes from was not followed")
                else:
                    rep.check(ok, "installs-are-made-on-copies", f.at(x), short_fn(f), "a constraint is installed without first being copied: installing takes it apart, so a second solve would not see it")
    rep.floor("installs of a problem's constraints", m, 1)
    # what copies share
    index = props.Index(prog)
    q = 0
    for k, c in prog.classes.items():
        if not (derives(prog, k, "gcs::Constraint") or derives(prog, k, "gcs::Presolver")) or c.get("pattern"):
            continue
        pre = derives(prog, k, "gcs::Presolver")
        ms = [prog.fn(m) for m in c.get("methods") or ()]
        ms = [m for m in ms if m is not None and m.get("body") and not m.get("pattern")]
        for x in c.get("fields") or ():
            s = set()
            props.shared_targets(prog, c.type(x["t"]), s, set())
            if not s:
                continue
            q += 1
            fresh = any("(ctor)" not in m.key and not m["n"].startswith("with_") and assigns(m, x["n"]) for m in ms)
            if fresh or all(stats_like(t) for t in s) or "NogoodStore" in " ".join(s):
                rep.ok("copies-share-nothing-that-changes", "%s::%s" % (k.split("::")[-1], x["n"]))
                continue
            bad = next((y for y in (changes_field(m, x["n"]) for m in ms if "(ctor)" not in m.key) if y), None)
            rep.check(bad is None, "copies-share-nothing-that-changes", bad or c.loc, "%s|%s" % (k, x["n"]),
                      "'%s' is shared by every copy of a %s, including those of other solves, and is changed here" % (x["n"], k.split("::")[-1]))
        if pre:
            for m in ms:
                if m["n"] != "run":
                    continue
                bad = None
                for y in walk(m["body"]):
                    w = write_target(y)
                    p = this_path(w) if w is not None else None
                    if p is None:
                        continue
                    t = next((c.type(z["t"]) for z in c.get("fields") or () if z["n"] == p.split(".")[0]), "")
                    if not stats_like(t):
                        bad = y
                        break
                rep.check(bad is None, "problem-is-kept", m.at(bad) if bad else m.loc, k + "|run", "a presolver changes itself when it is run, so the next solve is not the same")
    rep.floor("members that copies share", q, 10)


def stats_like(t):
    return "Stats" in t


def write_target(x):
    if x["k"] in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and x.get("op") in props.ASSIGN:
        return x["c"][0]
    if x["k"] in ("UnaryOperator", "CXXOperatorCallExpr") and x.get("op") in ("++", "--"):
        return x["c"][0]
    if x["k"] == "CXXMemberCallExpr" and not x.get("const") and isinstance(x.get("obj"), dict) and fname(x) in (
            "push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "pop_back", "try_emplace", "assign", "swap", "reset", "install", "set_constraint_id",
            "allocate_integer_variable_with_state", "guess", "infer", "new_epoch", "add_constraint_state", "add_extra_proof_condition", "on_backtrack"):
        return x["obj"]
    if x["k"] == "CallExpr" and strip_targs(qcallee(x)) in ("std::move", "std::exchange", "std::swap") and x.get("c"):
        return x["c"][0]
    return None


def loops_over_own(f, r):
    """A variable that is a reference into the object's own data: a loop over one of its members."""
    if not isinstance(r, dict) or r["k"] != "DeclRefExpr":
        return False
    for y in walk(f["body"]):
        if y["k"] == "CXXForRangeStmt" and isinstance(y.get("var"), dict) and y["var"].get("d") == r["d"] and this_path(y.get("range")) is not None:
            return f.type(y["var"]).rstrip().endswith("&")
        if y["k"] == "VarDecl" and y.get("d") == r["d"] and isinstance(y.get("init"), dict):
            return f.type(y).rstrip().endswith("&") and this_path(y["init"]) is not None
    return False


def assigns(m, field):
    for y in walk(m["body"]):
        if y["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and y.get("op") == "=" and this_path(y["c"][0]) == field:
            return True
        if y["k"] == "CXXMemberCallExpr" and fname(y) in ("reset", "emplace") and isinstance(y.get("obj"), dict) and this_path(y["obj"]) == field:
            return True
    return False


def changes_field(m, field):
    for y in walk(m["body"]):
        w = write_target(y)
        if w is None or y["k"] == "CallExpr":
            continue
        r, parts = root_of(w)
        chain = ([] if not isinstance(r, dict) or r["k"] != "CXXThisExpr" else parts)
        if chain and chain[0] == field and not (this_path(w) == field and y.get("op") == "="):
            return m.at(y)
    return None


def run():
    rep = Report("C12", "other",
                 rule="No object with static storage changes; no random device, clock, process identity or address reaches a decision, a random device only the unseeded random heuristics; every scalar variable and member is stored to before it is read; solving changes nothing in the problem, installs copies of its constraints, and copies share nothing that changes",
                 explanation="Queries over every function body and class of the library: storage duration and writes, reachability in the call graph from random devices, taint from clocks into conditions and comparisons, key types of ordered and hashed containers, definite assignment of uninitialised locals and members, and effects of the problem's read-only functions.")
    rep.assumptions = ["environment variables count as options", "a heuristic object that owns a random generator is part of the options: using the same object in two solves continues its sequence",
                       "the iteration order of a hashed container with keys that are not addresses is a function of its history"]
    prog = ir.Program(ir.lib_units())
    for name, fn in (("objects that outlive a solve", static_state), ("entropy", entropy), ("time", times), ("addresses", addresses), ("values never set", uninitialised), ("the problem", problem_kept)):
        rep.part(name, fn, prog, rep)
    return rep.finish(prog)


if __name__ == "__main__":
    main(run)
