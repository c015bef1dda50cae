"""C10: negation gives the exact complement, and conditions on views mean the same as conditions
on the underlying variable.

Every function that builds, negates, maps, tests or applies a condition is interpreted over an
affine-term domain, once for each kind of condition and each kind of variable, and what it
computes is compared with the meaning of the condition."""
import common
import cxx
import ir
from absint import INF, Num, Obj, Opt, Ptr, TooHard, iv_and, iv_bounds, p_add, p_atom, p_const, p_key
from terms import (Clo, Enum, INT, Null, Term, Terms, atom, events, flat_alternatives, inner_types, integer, tname)
from absint import State

RULE = ("for every condition kind and every variable kind: constructors denote the stated relation; operator! denotes the complement and is an involution; "
        "view transforms and tests denote the same relation on the underlying variable")
NEG = {"Equal": "NotEqual", "NotEqual": "Equal", "Less": "GreaterEqual", "GreaterEqual": "Less", "InRange": "NotInRange", "NotInRange": "InRange"}
RANGEOPS = ("InRange", "NotInRange")
S, V, C = "gcs::SimpleIntegerVariableID", "gcs::ViewOfIntegerVariableID", "gcs::ConstantIntegerVariableID"
IVID = cxx.VARIANT_IVID
COND = "gcs::VariableConditionFrom<"
PO = "gcs::innards::ProofOnlySimpleIntegerVariableID"
OPT = "gcs::VariableConditionOperator"


def poly(v):
    if isinstance(v, Obj) and v.t == INT:
        return v.f["raw_value"].p
    if isinstance(v, Num):
        return v.p
    return None


def neg(p):
    return {m: -c for m, c in p.items()}


class World:
    def __init__(self, prog, inline):
        self.prog = prog
        self.i = Terms(prog, inline)
        self.st = State()

    def simple(self, name="x", t=S):
        if t.startswith("std::variant"):
            t = S
        return Obj({"index": Num(p_atom(self.named(name)), "unsigned long long")}, t)

    def named(self, name):
        self.st.atoms.setdefault(name, (((-INF, INF),), None))
        return name

    def int(self, name):
        self.named(name)
        return integer(p_atom(name))

    def view(self, negate):
        return Obj({"actual_variable": self.simple("x"), "negate_first": Num(p_const(int(negate)), "bool"), "then_add": self.int("A")}, V)

    def constant(self):
        return Obj({"const_value": self.int("K")}, C)

    def cond(self, var, op, t):
        d = {"var": var, "op": Enum(op, OPT), "value": self.int("val"), "upper_value": self.int("upv")}
        if op in RANGEOPS:
            # a range condition is only ever built with lower end <= upper end
            self.i.restrict(self.st, p_add(p_atom("upv"), p_atom("val"), -1), ((0, INF),))
        return Obj(d, COND + t + ">")

    def variables(self, t=IVID):
        """(name, value) for each alternative of a variable type."""
        alts = flat_alternatives(t)
        out = []
        for a in alts:
            if a == V:
                out += [("view", self.view(0)), ("negated view", self.view(1))]
            elif a == C:
                out.append(("constant", self.constant()))
            else:
                out.append((a.split("::")[-1], self.simple("x", a)))
        return out


def affine(st, i, var):
    """(atom key or None, sign, offset poly)"""
    if isinstance(var, Obj) and var.t == C:
        return None, 0, poly(var.f["const_value"])
    if isinstance(var, Obj) and var.t == V:
        base = affine(st, i, var.f["actual_variable"])
        n = i.const(st, poly(var.f["negate_first"]))
        if n is None:
            return None
        return base[0], -base[1] if n else base[1], p_add(neg(base[2]) if n else base[2], poly(var.f["then_add"]))
    return i.vkey(st, var), 1, {}


def normal(st, i, cond):
    """A condition as (variable, operator, value, upper) on the underlying variable."""
    a = affine(st, i, cond.f["var"])
    op = cond.f["op"]
    if a is None or not isinstance(op, Enum):
        return None
    op = op.n
    key, sign, off = a
    v = poly(cond.f["value"])
    u = poly(cond.f["upper_value"]) if "upper_value" in cond.f and op in RANGEOPS else {}
    if key is None:
        return ("const", p_key(off), op, p_key(v), p_key(u))
    if sign == 1:
        v, u = p_add(v, off, -1), p_add(u, off, -1)
    else:
        v, u = p_add(off, v, -1), p_add(off, u, -1)
        if op in ("Less", "GreaterEqual"):
            op = NEG[op]
            v = p_add(v, p_const(1))
        if op in RANGEOPS:
            v, u = u, v
    v, u = i.simp(st, v), i.simp(st, u)
    return (key, op, p_key(v), p_key(u) if op in RANGEOPS else ())


def complement(nf):
    if nf is None:
        return None
    if nf[0] == "const":
        return nf[:2] + (NEG[nf[2]],) + nf[3:]
    return (nf[0], NEG[nf[1]]) + nf[2:]


def eq(s, i, p, q):
    """Do the facts of the state make the two values equal?"""
    if p is None or q is None:
        return False
    return p_key(i.simp(s, p)) == p_key(i.simp(s, q)) or inside(i.iv(s, p_add(p, q, -1)), ((0, 0),))


def samenf(s, i, a, b):
    """Do two normalised conditions denote the same relation?"""
    if a == b:
        return True
    if a is None or b is None or len(a) != len(b) or a[0] == "const" or len(a) != 4 or a[:2] != b[:2]:
        return False
    return eq(s, i, dict(a[2]), dict(b[2])) and (not a[3] and not b[3] or eq(s, i, dict(a[3]), dict(b[3])))


def inside(iv, tgt):
    return iv_and(iv, tgt) == iv if iv else True


def implied(st, i, x, op, v, u, truth):
    """Do the facts of the state imply that 'x op v' is truth?"""
    if not truth:
        op = NEG[op]
    d = i.iv(st, p_add(x, v, -1))
    if op == "Equal":
        return inside(d, ((0, 0),))
    if op == "NotEqual":
        return not iv_and(d, ((0, 0),))
    if op == "Less":
        return inside(d, ((-INF, -1),))
    if op == "GreaterEqual":
        return inside(d, ((0, INF),))
    e = i.iv(st, p_add(u, x, -1))
    if op == "InRange":
        return inside(d, ((0, INF),)) and inside(e, ((0, INF),))
    return inside(d, ((-INF, -1),)) or inside(e, ((-INF, -1),))


def literal_meaning(st, i, v):
    t = getattr(v, "t", "")
    if t.startswith(COND):
        return normal(st, i, v)
    if t == "gcs::innards::TrueLiteral":
        return ("true",)
    if t == "gcs::innards::FalseLiteral":
        return ("false",)
    return None


def pairs(t):
    """The condition alternatives of a literal-like type: [variable type]"""
    return [a[len(COND):-1] for a in flat_alternatives(t) if a.startswith(COND)]


def run():
    prog = ir.Program(ir.lib_units())
    rep = common.Report("C10", rule=RULE, explanation=__doc__)
    allf = [f for d in (prog.fns, prog.insts) for f in d.values() if f.r == "fn" and f.get("body") and not f.get("pattern")]
    count = {}

    def seen(kind):
        count[kind] = count.get(kind, 0) + 1

    def short(f):
        return cxx.short(f.key).replace("gcs::innards::", "").replace("gcs::", "")[:150]

    def attempt(f, kind, what, w, args, this=None):
        try:
            return w.i.run(f, args, w.st, this)
        except TooHard as e:
            rep.undecided(kind, f.loc, short(f) + "|" + what, "cannot interpret %s (%s): %s" % (short(f), what, e))
            return []

    def values_of(w, alts_t, ops):
        """Every literal-like argument: (description, world-independent builder)"""

    # ---- constructors -----------------------------------------------------------
    CTOR = {"operator==": "Equal", "operator!=": "NotEqual", "operator<": "Less", "operator>=": "GreaterEqual", "operator<=": "<=", "operator>": ">",
            "in_range": "InRange", "not_in_range": "NotInRange"}
    everything = lambda c: True                                       # noqa: E731
    for f in allf:
        q = cxx.qcallee({"f": f.key})
        nm = q.split("::")[-1]
        ret = tname(f.type(f["ret"]))
        ps = [tname(f.type(p["t"])) for p in f["params"]]
        if ret.startswith(COND) and q.startswith("gcs::") and ps and ps[0] == ret[len(COND):-1] and len(ps) >= 2 and all(p == INT for p in ps[1:]) and (
                nm in CTOR):
            for what, _ in World(prog, everything).variables(ps[0]):
                w = World(prog, everything)
                var = dict(w.variables(ps[0]))[what]
                args = [var, w.int("val")] + ([w.int("upv")] if len(ps) > 2 else [])
                rs = attempt(f, "constructor", what, w, args)
                want = CTOR[nm]
                for kind, s, v, node in rs:
                    if kind == "throw":
                        ok = want in RANGEOPS and inside(w.i.iv(s, p_add(p_atom("upv"), p_atom("val"), -1)), ((-INF, -1),))
                        rep.check(ok, "constructor", f.loc, short(f) + "|" + what, "%s throws on an interval that is not empty" % short(f))
                        seen("constructors")
                        continue
                    ref = {"Less": ("Less", 0), "GreaterEqual": ("GreaterEqual", 0), "<=": ("Less", 1), ">": ("GreaterEqual", 1)}.get(want, (want, 0))
                    expect = Obj({"var": var, "op": Enum(ref[0], OPT), "value": integer(p_add(p_atom("val"), p_const(ref[1]))), "upper_value": w.int("upv") if
                                  len(ps) > 2 else integer({})}, ret)
                    got = normal(s, w.i, v)
                    exp = normal(s, w.i, expect)
                    # a one-value interval is the same as (dis)equality
                    if got != exp and want in RANGEOPS and inside(w.i.iv(s, p_add(p_atom("upv"), p_atom("val"), -1)), ((0, 0),)):
                        e2 = Obj(dict(expect.f), ret)
                        e2.f["op"] = Enum({"InRange": "Equal", "NotInRange": "NotEqual"}[want], OPT)
                        exp = normal(s, w.i, e2)
                        if got != exp:
                            # the same value through the other end
                            e2.f["value"] = w.int("upv")
                            exp = normal(s, w.i, e2) if got == normal(s, w.i, e2) else exp
                    rep.check(got == exp, "constructor", f.at(node), short(f) + "|" + what,
                              "%s on a %s builds %s, which is not the stated relation %s" % (short(f), what, fmt(got), fmt(exp)), "%s %s" % (f.loc, short(f)))
                    seen("constructors")

    # ---- negation ----------------------------------------------------------------
    for f in allf:
        q = cxx.qcallee({"f": f.key})
        if not q.split("::")[-1] == "operator!" or len(f["params"]) != 1 or not f.file.startswith("gcs/"):
            continue
        pt = tname(f.type(f["params"][0]["t"]))
        for a in flat_alternatives(pt):
            if a.startswith(COND):
                vt = a[len(COND):-1]
                for op in NEG:
                    for what, _ in World(prog, everything).variables(vt):
                        w = World(prog, everything)
                        c = w.cond(dict(w.variables(vt))[what], op, vt)
                        before = normal(w.st, w.i, c)
                        good = False
                        for kind, s, v, node in attempt(f, "negation", what, w, [c]):
                            good = True
                            got = literal_meaning(s, w.i, v) if kind == "return" else None
                            rep.check(samenf(s, w.i, got, complement(before)), "negation", f.loc, "%s|%s|%s" % (short(f), op, what),
                                      "%s of %s on a %s gives %s, not the complement %s" % (short(f), op, what, fmt(got), fmt(complement(before))),
                                      "%s %s" % (f.loc, op))
                            seen("negations")
                        if not good:
                            rep.undecided("negation", f.loc, short(f) + "|" + op, "no result for %s" % op)
            else:
                w = World(prog, everything)
                cls = prog.classes.get(a)
                fields = [x for x in (cls.get("fields") or ())] if cls is not None else []
                if a in ("gcs::innards::TrueLiteral", "gcs::innards::FalseLiteral"):
                    v0 = Obj({}, a)
                    for kind, s, v, node in attempt(f, "negation", a, w, [v0]):
                        want = "gcs::innards::FalseLiteral" if "True" in a else "gcs::innards::TrueLiteral"
                        rep.check(kind == "return" and getattr(v, "t", "") == want, "negation", f.loc, "%s|%s" % (short(f), a),
                                  "%s of %s is not %s" % (short(f), a, want))
                        seen("negations")
                    continue
                if not fields:
                    raise ir.Broken("%s: negation of unknown type %s" % (f.loc, a))
                d = {}
                flags = []
                for x in fields:
                    ft = tname(cls.type(x["t"]))
                    if ft == "bool":
                        w.st.atoms[x["n"]] = (((0, 1),), None)
                        d[x["n"]] = Num(p_atom(x["n"]), "bool")
                        flags.append(x["n"])
                    elif ft == INT:
                        d[x["n"]] = w.int(x["n"])
                    else:
                        d[x["n"]] = w.i.opaque(w.st, "field " + x["n"], [], ft)
                for kind, s, v, node in attempt(f, "negation", a, w, [Obj(d, a)]):
                    same = isinstance(v, Obj) and v.t == a and set(v.f) >= set(d)
                    flipped = 0
                    for n2 in d if same else ():
                        if n2 in flags:
                            tot = w.i.iv(s, p_add(poly(v.f[n2]), p_atom(n2)))
                            if inside(tot, ((1, 1),)):
                                flipped += 1
                            elif not inside(w.i.iv(s, p_add(poly(v.f[n2]), p_atom(n2), -1)), ((0, 0),)):
                                same = False
                        elif w.i.vkey(s, v.f[n2]) != w.i.vkey(s, d[n2]):
                            same = False
                    rep.check(kind == "return" and same and flipped == 1, "negation", f.loc, "%s|%s" % (short(f), a),
                              "%s must flip exactly the polarity of a %s and keep everything else" % (short(f), a))
                    seen("negations")

    # ---- arithmetic on variables ---------------------------------------------------
    for f in allf:
        q = cxx.qcallee({"f": f.key})
        ps = [tname(f.type(p["t"])) for p in f["params"]]
        ret = tname(f.type(f["ret"]))
        if q not in ("gcs::operator+", "gcs::operator-") or ret not in (IVID, S, V, C) or not ps or ps[0] not in (IVID, S, V, C) or ps[1:] not in ([], [INT]):
            continue
        for what, _ in World(prog, everything).variables(ps[0]):
            w = World(prog, everything)
            var = dict(w.variables(ps[0]))[what]
            args = [var] + ([w.int("o")] if len(ps) > 1 else [])
            b = affine(w.st, w.i, var)
            sg = -1 if q.endswith("-") else 1
            want = (b[0], b[1], p_add(b[2], p_atom("o"), sg)) if len(ps) > 1 else (b[0], -b[1], neg(b[2])) if sg < 0 else b
            for kind, s, v, node in attempt(f, "variable arithmetic", what, w, args):
                got = affine(s, w.i, v) if kind == "return" and isinstance(v, Obj) else None
                ok = got is not None and got[:2] == want[:2] and eq(s, w.i, got[2], want[2])
                rep.check(ok, "variable arithmetic", f.at(node) if node else f.loc, "%s|%s" % (short(f), what),
                          "%s on a %s does not give the variable it names" % (short(f), what), "%s %s" % (f.loc, what))
                seen("variable arithmetic")

    # ---- functions from a condition to an equivalent condition ----------------------
    # Helpers with internal linkage are interpreted where they are called; only when a
    # caller is not itself a mapping are they checked on their own, for the kinds their callers pass.
    callers, host = {}, {}
    for g in allf:
        for n in ir.walk(g["body"]):
            if isinstance(n, dict) and n.get("k") == "LambdaExpr":
                host[n.get("f")] = g
            if isinstance(n, dict) and n.get("k") in cxx.CALLS and "(anonymous namespace)" in (n.get("f") or ""):
                callers.setdefault(n["f"], []).append((g, n))

    def is_mapping(f):
        while f.key in host:
            f = host[f.key]
        ret = tname(f.type(f["ret"]))
        rets = flat_alternatives(ret)
        ok = lambda a: a.startswith(COND) or a.endswith("::TrueLiteral") or a.endswith("::FalseLiteral")      # noqa: E731
        return any(a.startswith(COND) for a in rets) and all(map(ok, rets)) and any(
            pairs(t) and all(map(ok, flat_alternatives(t))) for t in [tname(f.type(p["t"])) for p in f["params"]])

    def kinds_passed(f, i):
        """The operators a helper is called with, or None when it is only used by other mappings."""
        ops = set()
        outside = [(g, n) for g, n in callers.get(f.key, []) if not is_mapping(g) and g.key != f.key]
        if not outside:
            return None
        for g, n in outside:
            a = cxx.strip(list(ir.kids(n))[i])
            while a.get("k") in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "Temp") and len(list(ir.kids(a))) == 1:
                a = cxx.strip(list(ir.kids(a))[0])
            nm = cxx.qcallee(a).split("::")[-1] if a.get("k") in cxx.CALLS else None
            o = {"operator==": "Equal", "operator!=": "NotEqual", "operator<": "Less", "operator>=": "GreaterEqual", "operator<=": "Less", "operator>": "GreaterEqual",
                 "in_range": "InRange", "not_in_range": "NotInRange"}.get(nm)
            if o is None:
                return set(NEG)
            ops.add(o)
        return ops
    for f in allf:
        nm = cxx.qcallee({"f": f.key}).split("::")[-1]
        if nm in ("operator!",) or "::(ctor)" in f.key or "operator gcs" in f.key or not f.file.startswith("gcs/"):
            continue
        ret = tname(f.type(f["ret"]))
        rets = flat_alternatives(ret)
        if not any(a.startswith(COND) for a in rets) or not all(a.startswith(COND) or a.endswith("::TrueLiteral") or a.endswith("::FalseLiteral") for a in rets):
            continue
        lits = [i for i, p in enumerate(f["params"]) if pairs(tname(f.type(p["t"]))) and all(
            a.startswith(COND) or a.endswith(("::TrueLiteral", "::FalseLiteral")) for a in flat_alternatives(tname(f.type(p["t"]))))]
        others = [tname(f.type(p["t"])) for i, p in enumerate(f["params"]) if i not in lits]
        if len(lits) != 1 or any(o not in ("gcs::innards::NamesAndIDsTracker",) for o in others) or f.key.startswith("lambda@"):
            continue
        pt = tname(f.type(f["params"][lits[0]]["t"]))
        inline = lambda c: "NamesAndIDsTracker" not in (c.get("cls") or "")          # noqa: E731
        kinds = set(NEG)
        if "(anonymous namespace)" in f.key:
            kinds = kinds_passed(f, lits[0])
            if kinds is None:
                rep.ok("mapping helper", short(f))
                continue
        for vt in sorted(set(pairs(pt))):
            for op in NEG:
                if op not in kinds:
                    continue
                for what, _ in World(prog, inline).variables(vt):
                    w = World(prog, inline)
                    var = dict(w.variables(vt))[what]
                    c = w.cond(var, op, vt)
                    args = [c if i == lits[0] else Term("tracker", (), "gcs::innards::NamesAndIDsTracker") for i in range(len(f["params"]))]
                    before = normal(w.st, w.i, c)
                    for kind, s, v, node in attempt(f, "mapping", what, w, args):
                        sig = "%s|%s|%s" % (short(f), op, what)
                        if kind == "throw":
                            rep.ok("mapping refused", sig)
                            continue
                        seen("mappings")
                        t = getattr(v, "t", "")
                        if t in ("gcs::innards::TrueLiteral", "gcs::innards::FalseLiteral") and before[0] == "const":
                            ok = implied(s, w.i, dict(before[1]), op, p_atom("val"), p_atom("upv"), t.endswith("TrueLiteral"))
                            rep.check(ok, "mapping", f.at(node), sig, "%s answers %s for %s on a constant when that does not follow" % (short(f), t.split(":")[-1], op))
                            continue
                        got = literal_meaning(s, w.i, v)
                        ok = samenf(s, w.i, got, before)
                        if not ok and isinstance(v, Obj) and t == COND + PO + ">" and isinstance(var, Obj) and var.t == V:
                            # the condition on the view's own stand-in variable: same operator and values
                            r = v.f["var"]
                            ok = "find_view" in repr(w.i.vkey(s, r)) and v.f["op"].n == op and p_key(poly(v.f["value"])) == p_key(p_atom("val")) and (
                                op not in RANGEOPS or p_key(poly(v.f["upper_value"])) == p_key(p_atom("upv")))
                        if not ok and op in RANGEOPS and got and before[0] != "const" and inside(w.i.iv(s, p_add(p_atom("upv"), p_atom("val"), -1)), ((0, 0),)):
                            ok = got == (before[0], {"InRange": "Equal", "NotInRange": "NotEqual"}[op], before[2], ()) or got == (
                                before[0], {"InRange": "Equal", "NotInRange": "NotEqual"}[op], before[3], ())
                        rep.check(ok, "mapping", f.at(node) if node else f.loc, sig,
                                  "%s maps %s on a %s to %s; it means %s" % (short(f), op, what, fmt(got), fmt(before)), "%s %s" % (f.loc, op))

    # ---- tests of a condition at a value ---------------------------------------------
    def truth(v, s, i):
        if isinstance(v, Opt):
            if v.engaged is False:
                return "unknown"
            v = v.v
        p = poly(v)
        return i.const(s, p) if p is not None else None
    for f in allf:
        if f.key.startswith("lambda@") or not f.file.startswith("gcs/"):
            continue
        ret = tname(f.type(f["ret"]))
        ps = [tname(f.type(p["t"])) for p in f["params"]]
        if ret not in ("bool", "std::optional<bool>") or not ps or not pairs(ps[0]):
            continue
        nm = cxx.qcallee({"f": f.key}).split("::")[-1]
        if nm in ("operator==", "operator<=>"):
            continue
        if len(ps) == 2 and ps[1] == INT:
            # does the condition hold at this value?
            for op in NEG:
                w = World(prog, everything)
                c = w.cond(w.simple(), op, ps[0][len(COND):-1])
                for kind, s, v, node in attempt(f, "test at a value", op, w, [c, w.int("at")]):
                    b = truth(v, s, w.i) if kind == "return" else None
                    ok = b in (0, 1) and implied(s, w.i, p_atom("at"), op, p_atom("val"), p_atom("upv"), bool(b))
                    rep.check(ok, "test at a value", f.at(node), "%s|%s" % (short(f), op), "%s answers %s for %s when that does not follow" % (short(f), b, op))
                    seen("tests at a value")
        elif len(ps) == 1 and ret == "std::optional<bool>" or (len(ps) == 1 and nm in ("is_literally_true", "is_literally_false")):
            wantneg = nm.endswith("false") and ret == "bool"
            for a in flat_alternatives(ps[0]):
                if not a.startswith(COND):
                    w = World(prog, everything)
                    for kind, s, v, node in attempt(f, "literal truth", a, w, [Obj({}, a)]):
                        b = truth(v, s, w.i)
                        want = int(a.endswith("TrueLiteral") != wantneg)
                        rep.check(kind == "return" and b == want, "literal truth", f.loc, "%s|%s" % (short(f), a), "%s of %s is %s" % (short(f), a, b))
                        seen("literal truths")
                    continue
                for op in NEG:
                    for what, _ in World(prog, everything).variables(a[len(COND):-1]):
                        w = World(prog, everything)
                        c = w.cond(dict(w.variables(a[len(COND):-1]))[what], op, a[len(COND):-1])
                        for kind, s, v, node in attempt(f, "literal truth", what, w, [c]):
                            b = truth(v, s, w.i) if kind == "return" else None
                            if what == "constant":
                                x = p_atom("K")
                                if ret == "bool":
                                    # true exactly when the condition (or its complement) is certain
                                    ok = b in (0, 1) and implied(s, w.i, x, op, p_atom("val"), p_atom("upv"), bool(b) != wantneg)
                                else:
                                    ok = b in (0, 1) and implied(s, w.i, x, op, p_atom("val"), p_atom("upv"), bool(b))
                            else:
                                ok = b == "unknown" if ret != "bool" else b == 0
                            rep.check(ok, "literal truth", f.at(node) if node else f.loc, "%s|%s|%s" % (short(f), op, what),
                                      "%s answers %s for %s on a %s when that does not follow" % (short(f), b, op, what))
                            seen("literal truths")
        elif len(ps) == 2 and ps[1] == "gcs::innards::State" or len(ps) == 2 and ps[0] == "gcs::innards::State":
            pass

    # gates of linear stages: (const State &, cond) -> bool
    noinl = lambda c: "::State::" not in c.key                                         # noqa: E731
    for f in allf:
        ps = [tname(f.type(p["t"])) for p in f["params"]]
        if f.key.startswith("lambda@") or tname(f.type(f["ret"])) != "bool" or ps != ["gcs::innards::State", COND + IVID + ">"]:
            continue
        for op in NEG:
            w = World(prog, noinl)
            c = w.cond(w.simple(), op, IVID)
            for kind, s, v, node in attempt(f, "test against a state", op, w, [Term("state", (), "State"), c]):
                if kind == "throw":
                    rep.ok("test refused", short(f) + "|" + op)
                    continue
                b = truth(v, s, w.i)
                lo, hi = (atom_of(s, n) for n in ("lower_bound", "upper_bound"))
                ok = b in (0, 1) and state_implied(s, w.i, op, bool(b), lo, hi, None, p_atom("val"), p_atom("upv"), exact=False)
                rep.check(ok, "test against a state", f.at(node), "%s|%s" % (short(f), op), "%s answers %s for %s when the bounds do not show it" % (short(f), b, op))
                seen("tests against a state")

    state_rules(prog, rep, allf, attempt, seen, short)
    tracker_rules(prog, rep, allf, attempt, seen, short)

    for k, n in (("constructors", 40), ("negations", 60), ("variable arithmetic", 10), ("mappings", 30), ("tests at a value", 8), ("literal truths", 60),
                 ("tests against a state", 4), ("state changes", 60), ("state queries", 20), ("state tests", 50), ("tracker lookups", 12)):
        rep.floor(k, count.get(k, 0), n)
    return rep.finish(prog)


def fmt(nf):
    if nf is None:
        return "nothing recognisable"

    def pk(k):
        return " + ".join(("%s*%s" % (c, "*".join(map(str, m))) if m else str(c)) for m, c in k) or "0"
    if nf[0] in ("true", "false"):
        return nf[0]
    if nf[0] == "const":
        return "(%s %s %s..%s)" % (pk(nf[1]), nf[2], pk(nf[3]), pk(nf[4]))
    return "(x %s %s%s)" % (nf[1], pk(nf[2]), ".." + pk(nf[3]) if nf[3] else "")


def atom_of(s, name):
    for a in s.atoms:
        if isinstance(a, tuple) and a[0] == "app" and a[1] == name:
            return p_atom(a)
    return None


def state_implied(s, i, op, b, lo, hi, contains, v, u, exact=True):
    """Do facts about a domain's bounds (and membership) show that the condition holds everywhere / nowhere / (inexact) not everywhere?"""
    def sub(a, c, tgt):
        if a is None or c is None:
            return False
        return inside(i.iv(s, p_add(a, c, -1)), tgt)
    POS, NEGS, ZERO = ((0, INF),), ((-INF, -1),), ((0, 0),)

    def ne(a, c):
        return a is not None and not iv_and(i.iv(s, p_add(a, c, -1)), ZERO)
    if b:
        if op == "GreaterEqual":
            return sub(lo, v, POS)
        if op == "Less":
            return sub(hi, v, NEGS)
        if op == "Equal":
            return sub(lo, v, ZERO) and sub(hi, v, ZERO)
        if op == "InRange":
            return sub(lo, v, POS) and sub(u, hi, POS)
        if op == "NotEqual":
            return sub(lo, v, ((1, INF),)) or sub(hi, v, NEGS)
        return sub(lo, u, ((1, INF),)) or sub(hi, v, NEGS)
    # the answer 'no' of a gate means: not known to hold everywhere
    if op == "GreaterEqual":
        return sub(lo, v, NEGS)
    if op == "Less":
        return sub(hi, v, POS)
    if op == "Equal":
        return ne(lo, v) or ne(hi, v)
    if op == "InRange":
        return sub(lo, v, NEGS) or sub(u, hi, NEGS)
    return True


# ---- the search state ---------------------------------------------------------------
CHANGES = {"change_state_for_equal": "Equal", "change_state_for_not_equal": "NotEqual", "change_state_for_less_than": "Less",
           "change_state_for_greater_than_or_equal": "GreaterEqual", "change_state_for_in_range": "InRange", "change_state_for_not_in_range": "NotInRange"}


def domain_call(f):
    """Functions left opaque: the stored domains, and the primitive changes to them."""
    n = cxx.qcallee({"f": f.key}).split("::")[-1]
    return n in CHANGES or n.startswith("state_of") or "IntervalSet" in f.key.split("(")[0] or n.startswith("each_value_")


def state_rules(prog, rep, allf, attempt, seen, short):
    inline = lambda c: not domain_call(c)                                              # noqa: E731
    SELF = Term("self", (), "gcs::innards::State")

    def world():
        w = World(prog, inline)
        w.st.mem[("self",)] = SELF
        return w
    meths = {}
    for f in allf:
        if f.get("cls") == "gcs::innards::State":
            meths.setdefault(cxx.qcallee({"f": f.key}).split("::")[-1], []).append(f)

    def var_types(f):
        return [tname(f.type(p["t"])) for p in f["params"]]

    # changes: infer(literal or condition)
    found = 0
    for f in meths.get("infer", []):
        ps = var_types(f)
        if len(ps) != 1:
            continue
        for a in flat_alternatives(ps[0]):
            if not a.startswith(COND):
                continue
            vt = a[len(COND):-1]
            for op in NEG:
                for what, _ in world().variables(vt):
                    w = world()
                    var = dict(w.variables(vt))[what]
                    c = w.cond(var, op, vt)
                    nf = normal(w.st, w.i, c)
                    for kind, s, v, node in attempt(f, "state change", what, w, [c], ("self",)):
                        found += 1
                        seen("state changes")
                        sig = "%s|%s|%s" % (short(f), op, what)
                        ev = [e for e in events(s) if e[0] in CHANGES]
                        if nf[0] == "const":
                            r = v.n if isinstance(v, Enum) else None
                            ok = kind == "return" and not ev and r in ("NoChange", "Contradiction") and implied(
                                s, w.i, dict(nf[1]), op, p_atom("val"), p_atom("upv"), r == "NoChange")
                            rep.check(ok, "state change", f.at(node) if node else f.loc, sig, "inferring %s on a constant answers %s when that does not follow" % (op, r))
                            continue
                        got = None
                        if len(ev) == 1:
                            name, vs, _ = ev[0]
                            # object first when the call is written through it
                            vals = [x for x in vs if isinstance(x, Obj)]
                            if vals and poly(vals[-1]) is not None:
                                o = Enum(CHANGES[name], OPT)
                                nums = [x for x in vals if x.t == INT]
                                tgt = [x for x in vals if x.t != INT]
                                if tgt and nums:
                                    got = normal(s, w.i, Obj({"var": tgt[0], "op": o, "value": nums[0], "upper_value": nums[-1]}, COND + S + ">"))
                        rep.check(kind == "return" and samenf(s, w.i, got, nf), "state change", f.at(node) if node else f.loc, sig,
                                  "inferring %s on a %s applies %s; it means %s" % (op, what, fmt(got), fmt(nf)), sig)

    # queries
    def lohi(w):
        st = w.st
        dom = None
        res = {}
        for n in ("lower_bound", "upper_bound"):
            f = next(g for g in meths[n] if len(g["params"]) == 1)
            r = w.i.run(f, [w.simple("x")], st.copy(), ("self",))
            if len(r) != 1 or r[0][0] != "return":
                raise ir.Broken("%s on a plain variable has several outcomes" % n)
            res[n] = r[0][2]
            for a, b in r[0][1].atoms.items():
                st.atoms.setdefault(a, b)
        return poly(res["lower_bound"]), poly(res["upper_bound"])

    for n in ("lower_bound", "upper_bound", "bounds"):
        for f in meths.get(n, []):
            if len(f["params"]) != 1:
                continue
            for what, _ in world().variables(var_types(f)[0]):
                w = world()
                var = dict(w.variables(var_types(f)[0]))[what]
                L, U = lohi(w)
                key, sign, off = affine(w.st, w.i, var)
                lo, hi = (off, off) if key is None else (p_add(L, off), p_add(U, off)) if sign == 1 else (p_add(neg(U), off), p_add(neg(L), off))
                for kind, s, v, node in attempt(f, "state query", what, w, [var], ("self",)):
                    want = {"lower_bound": [lo], "upper_bound": [hi], "bounds": [lo, hi]}[n]
                    got = [v] if n != "bounds" else list(v.f.values()) if isinstance(v, Obj) else []
                    ok = kind == "return" and [p_key(w.i.simp(s, poly(g))) if poly(g) is not None else None for g in got] == [p_key(w.i.simp(s, x)) for x in want]
                    rep.check(ok, "state query", f.at(node) if node else f.loc, "%s|%s" % (short(f), what), "%s of a %s is not the image of the underlying bounds" % (n, what),
                              "%s %s" % (f.loc, what))
                    seen("state queries")
    for f in meths.get("in_domain", []):
        for what, _ in world().variables(var_types(f)[0]):
            w = world()
            var = dict(w.variables(var_types(f)[0]))[what]
            key, sign, off = affine(w.st, w.i, var)
            q = p_add(p_atom(w.named("val")), off, -1) if sign >= 0 else p_add(off, p_atom(w.named("val")), -1)
            for kind, s, v, node in attempt(f, "state query", what, w, [var, w.int("val")], ("self",)):
                if key is None:
                    b = w.i.const(s, poly(v))
                    ok = b in (0, 1) and implied(s, w.i, off, "Equal", p_atom("val"), {}, bool(b))
                else:
                    ev = [e for e in events(s, "contains")]
                    ok = len(ev) == 1 and p_key(w.i.simp(s, poly(ev[0][1][-1]))) == p_key(w.i.simp(s, q)) and poly(v) is not None and "contains" in repr(p_key(poly(v)))
                rep.check(kind == "return" and ok, "state query", f.at(node) if node else f.loc, "%s|%s" % (short(f), what),
                          "membership in the domain of a %s does not ask for the underlying value" % what)
                seen("state queries")
    for f in meths.get("optional_single_value", []):
        for what, _ in world().variables(var_types(f)[0]):
            w = world()
            var = dict(w.variables(var_types(f)[0]))[what]
            L, U = lohi(w)
            key, sign, off = affine(w.st, w.i, var)
            for kind, s, v, node in attempt(f, "state query", what, w, [var], ("self",)):
                if kind != "return" or not isinstance(v, Opt) or v.engaged is None:
                    ok = False
                elif v.engaged:
                    want = off if key is None else p_add(L, off) if sign == 1 else p_add(off, L, -1)
                    want2 = off if key is None else p_add(U, off) if sign == 1 else p_add(off, U, -1)
                    got = p_key(w.i.simp(s, poly(v.v)))
                    ok = got in (p_key(w.i.simp(s, want)), p_key(w.i.simp(s, want2))) and (key is None or inside(w.i.iv(s, p_add(U, L, -1)), ((0, 0),)))
                else:
                    ok = key is not None and not iv_and(w.i.iv(s, p_add(U, L, -1)), ((0, 0),))
                rep.check(ok, "state query", f.at(node) if node else f.loc, "%s|%s" % (short(f), what), "the single value of a %s is wrong" % what)
                seen("state queries")
    # whole-domain copies: each stored interval maps to the image interval
    for f in meths.get("copy_of_values", []):
        for what, _ in world().variables(var_types(f)[0]):
            w = world()
            var = dict(w.variables(var_types(f)[0]))[what]
            key, sign, off = affine(w.st, w.i, var)
            if key is None:
                continue
            for kind, s, v, node in attempt(f, "state query", what, w, [var], ("self",)):
                ok = kind == "return"
                for e in events(s, "insert_at_end"):
                    a, b = (poly(x) for x in e[1][-2:])
                    firsts = [m for m in a if m and m != ("A",)] + [m for m in b if m and m != ("A",)]
                    if len(firsts) != 2:
                        ok = False
                        continue
                    fa, fb = repr(firsts[0]), repr(firsts[1])
                    want_a = p_add({firsts[0]: sign}, off)
                    want_b = p_add({firsts[1]: sign}, off)
                    ok = ok and p_key(w.i.simp(s, a)) == p_key(w.i.simp(s, want_a)) and p_key(w.i.simp(s, b)) == p_key(w.i.simp(s, want_b))
                    lowf = ".first" in fa or ".0" in fa or "'first'" in fa
                    ok = ok and (lowf == (sign == 1)) and (fa != fb)
                    seen("state queries")
                rep.check(ok, "state query", f.at(node) if node else f.loc, "%s|%s" % (short(f), what), "the copied domain of a %s is not the image of the stored intervals" % what)
    # values produced one at a time: the function applied to each stored value
    for n in ("each_value_immutable", "each_value_mutable", "each_value", "for_each_value", "for_each_value_immutable", "for_each_value_mutable"):
        for f in meths.get(n, []):
            for what, _ in world().variables(var_types(f)[0]):
                w = world()
                var = dict(w.variables(var_types(f)[0]))[what]
                key, sign, off = affine(w.st, w.i, var)
                try:
                    rs = w.i.run(f, [var] + [Term("callback", (), "callback")] * (len(f["params"]) - 1), w.st, ("self",))
                except TooHard:
                    continue
                for kind, s, v, node in rs:
                    for e in events(s):
                        for x in e[1]:
                            if isinstance(x, Clo):
                                s2 = s.copy()
                                elem = atom(s2, "elem")
                                r = prog.fn(x.key)
                                if r is None or len(r["params"]) != 1 or tname(r.type(r["params"][0]["t"])) != INT or tname(r.type(r["ret"])) != INT:
                                    continue
                                for k2, s3, v2, n2 in w.i.run(r, [elem], s2, None, x.fr):
                                    want = p_add({("elem",): 1 if key is None else sign}, off if key is not None else {})
                                    ok = k2 == "return" and poly(v2) is not None and p_key(w.i.simp(s3, poly(v2))) == p_key(w.i.simp(s3, want))
                                    rep.check(ok, "state query", f.loc, "%s|%s" % (short(f), what), "values of a %s are not the image of the underlying values" % what)
                                    seen("state queries")

    # tests; the copied domain of a variable is a question about that variable (checked above)
    inline = lambda c: not domain_call(c) and not cxx.qcallee({"f": c.key}).endswith("::copy_of_values")      # noqa: E731
    for f in meths.get("test_literal", []):
        ps = var_types(f)
        if len(ps) != 1:
            continue
        for a in flat_alternatives(ps[0]):
            if not a.startswith(COND):
                w = world()
                for kind, s, v, node in attempt(f, "state test", a, w, [Obj({}, a)], ("self",)):
                    want = "DefinitelyTrue" if a.endswith("TrueLiteral") else "DefinitelyFalse"
                    rep.check(isinstance(v, Enum) and v.n == want, "state test", f.loc, "%s|%s" % (short(f), a), "testing %s does not answer %s" % (a, want))
                    seen("state tests")
                continue
            for op in NEG:
                for what, _ in world().variables(a[len(COND):-1]):
                    w = world()
                    var = dict(w.variables(a[len(COND):-1]))[what]
                    c = w.cond(var, op, a[len(COND):-1])
                    L, U = lohi(w)
                    nf = normal(w.st, w.i, c)
                    for kind, s, v, node in attempt(f, "state test", what, w, [c], ("self",)):
                        seen("state tests")
                        r = v.n if isinstance(v, Enum) else None
                        sig = "%s|%s|%s" % (short(f), op, what)
                        if nf[0] == "const":
                            lo = hi = dict(nf[1])
                            o, val, up = op, p_atom("val"), p_atom("upv")
                        else:
                            lo, hi = L, U
                            o, val, up = nf[1], dict(nf[2]), dict(nf[3])
                        yes = everywhere(s, w.i, o, lo, hi, val, up, nf[0])
                        no = everywhere(s, w.i, NEG[o], lo, hi, val, up, nf[0])
                        ok = kind == "return" and (r == "DefinitelyTrue" and yes or r == "DefinitelyFalse" and no or r == "Undecided" and not yes and not no)
                        rep.check(ok, "state test", f.at(node) if node else f.loc, sig, "testing %s on a %s answers %s when the domain does not show it" % (op, what, r), sig)


def everywhere(s, i, op, lo, hi, v, u, nfkey=None):
    """Do the facts show the condition true of every value of the domain?"""
    def sub(a, c, tgt):
        return inside(i.iv(s, p_add(a, c, -1)), tgt)
    POS, NEGS, ZERO, GT = ((0, INF),), ((-INF, -1),), ((0, 0),), ((1, INF),)

    def answered(name, want):
        """The recorded membership questions with this answer: their arguments."""
        for e in events(s, name):
            key = ("app", name) + tuple(i.vkey(s, x) for x in e[1])
            if key in s.atoms and s.atoms[key][0] == ((int(want), int(want)),):
                yield e[1]

    def member(want):
        return any(poly(a[-1]) is not None and eq(s, i, poly(a[-1]), v) for a in answered("contains", want))
    if op == "GreaterEqual":
        return sub(lo, v, POS)
    if op == "Less":
        return sub(hi, v, NEGS)
    if op == "Equal":
        return sub(lo, v, ZERO) and sub(hi, v, ZERO) or (sub(lo, hi, ZERO) and member(True))
    if op == "NotEqual":
        return sub(lo, v, GT) or sub(hi, v, NEGS) or member(False) or (
            sub(lo, hi, ZERO) and not iv_and(i.iv(s, p_add(lo, v, -1)), ZERO))
    if op == "InRange":
        return sub(lo, v, POS) and sub(u, hi, POS)
    if sub(lo, u, GT) or sub(hi, v, NEGS):
        return True
    for a in answered("contains_any_of", False):
        if len(a) != 2 or not (isinstance(a[1], Term) and a[1].n == "IntervalSet" and len(a[1].a) == 2):
            continue
        whose = domain_of(a[0])
        if whose is None:
            continue
        got = normal(s, i, Obj({"var": whose, "op": Enum("InRange", OPT), "value": a[1].a[0], "upper_value": a[1].a[1]}, COND + IVID + ">"))
        if got and got[0] == nfkey and eq(s, i, dict(got[2]), v) and eq(s, i, dict(got[3]), u):
            return True
    return False


def domain_of(t):
    """The variable whose domain a term stands for."""
    if isinstance(t, Term) and (t.n.startswith("state_of") or t.n.startswith("copy_of_values")):
        vs = [x for x in t.a if isinstance(x, Obj)]
        return vs[-1] if vs else None
    return None


# ---- the proof side -------------------------------------------------------------------
def tracker_rules(prog, rep, allf, attempt, seen, short):
    def lits(c):
        ps = [tname(c.type(p["t"])) for p in c["params"]]
        ret = tname(c.type(c["ret"]))
        return len(ps) == 1 and ps[0].startswith(COND) and "XLiteral" in ret or len(ps) == 2 and ps[0].startswith(COND) and ps[1] == "gcs::innards::XLiteral"
    inline = lambda c: cxx.qcallee({"f": c.key}).split("::")[-1] in ("operator!",) or c.key.startswith("lambda@") or (                # noqa: E731
        c.r == "fn" and c.file.startswith("gcs/innards/proofs/") and lits(c))
    SOP = "std::variant<%s, %s>" % (S, PO)
    directions = {}

    def keyed(i, s, e, op, f):
        """A table of literals is indexed by the condition's own value (both ends for a range)."""
        nums = []

        def scan(x):
            if poly(x) is not None:
                nums.append(poly(x))
            elif isinstance(x, Obj) and x.t.startswith("std::pair<"):
                for y in x.f.values():
                    scan(y)
            elif isinstance(x, Term) and ("pair" in x.n or x.n.startswith("ctor:")):
                for y in x.a:
                    scan(y)
        if e[0] not in ("find", "at", "contains", "try_emplace", "emplace", "insert", "insert_or_assign", "operator[]"):
            return
        for x in e[1][1:]:
            if not (isinstance(x, Obj) and x.t == "gcs::innards::XLiteral"):
                scan(x)
        if not nums:
            return
        want = [p_atom("val"), p_atom("upv")][:2 if op in RANGEOPS else 1]
        ok = len(nums) == len(want) and all(eq(s, i, a, b) for a, b in zip(nums, want))
        rep.check(ok, "literal table", f.at(e[2]) if isinstance(e[2], dict) else f.loc, "%s|%s|%s" % (short(f), op, e[0]),
                  "%s indexes a table of literals by something other than the condition's own value" % short(f))
    # one literal per positive condition, its negation for the complement
    for f in allf:
        ps = [tname(f.type(p["t"])) for p in f["params"]]
        ret = tname(f.type(f["ret"]))
        if f.key.startswith("lambda@") or not f.file.startswith("gcs/innards/proofs/"):
            continue
        if len(ps) == 1 and ps[0].startswith(COND) and ret in ("std::optional<gcs::innards::XLiteral>", "gcs::innards::XLiteral"):
            found = {}
            for op in NEG:
                w = World(prog, inline)
                c = w.cond(w.simple(), op, ps[0][len(COND):-1])
                w.st.mem[("self",)] = Term("self", (), "tracker")
                res = set()
                for kind, s, v, node in attempt(f, "literal lookup", op, w, [c], ("self",)):
                    if kind == "return":
                        if isinstance(v, Opt):
                            if v.engaged is False:
                                continue
                            v = v.v
                        res.add(polarity(w.i, s, v))
                        for e in events(s):
                            keyed(w.i, s, e, op, f)
                found[op] = res
                directions.setdefault(op, {}).setdefault("find", set()).update(x[1] for x in res if x is not None)
            for op in ("Equal", "GreaterEqual", "InRange"):
                a, b = found[op], found[NEG[op]]
                ok = a and b and all(x is not None for x in a | b) and {(k, not p) for k, p in a} == b
                rep.check(bool(ok), "literal lookup", f.loc, "%s|%s" % (short(f), op), "%s does not answer %s and %s with opposite literals of one atom" % (short(f), op, NEG[op]))
                seen("tracker lookups")
            bases = [frozenset(k for k, _ in found[op]) for op in ("Equal", "GreaterEqual", "InRange")]
            if "find" in f.key or "lookup" in f.key:
                rep.check(len(set(bases)) == 3, "literal lookup", f.loc, short(f) + "|distinct", "%s answers different kinds of condition from one atom" % short(f))
        if len(ps) == 2 and ps[0].startswith(COND) and ps[1] == "gcs::innards::XLiteral" and ret == "void":
            for op in ("Equal", "GreaterEqual", "InRange"):
                got = []
                for o in (op, NEG[op]):
                    w = World(prog, inline)
                    c = w.cond(w.simple(), o, ps[0][len(COND):-1])
                    w.st.mem[("self",)] = Term("self", (), "tracker")
                    w.st.atoms["neg"] = (((0, 1),), None)
                    x = Obj({"id": w.i.opaque(w.st, "id", [], "long long"), "negated": Num(p_atom("neg"), "bool")}, "gcs::innards::XLiteral")
                    for kind, s, v, node in attempt(f, "literal store", o, w, [c, x], ("self",)):
                        evs = [e for e in events(s) if any(isinstance(y, Obj) and y.t == "gcs::innards::XLiteral" for y in e[1])]
                        if kind == "return" and len(evs) == 1:
                            e = evs[0]
                            lit = [y for y in e[1] if isinstance(y, Obj) and y.t == "gcs::innards::XLiteral"][0]
                            rest = tuple(w.i.vkey(s, y) for y in e[1] if y is not lit)
                            par = inside(w.i.iv(s, p_add(poly(lit.f["negated"]), p_atom("neg"))), ((1, 1),))
                            keyed(w.i, s, e, o, f)
                            directions.setdefault(o, {}).setdefault("store", set()).add(par)
                            got.append((rest, par))
                pos = [g for g in got if not g[1]]
                negs = [g for g in got if g[1]]
                ok = pos and negs and {g[0] for g in pos} == {g[0] for g in negs}
                rep.check(bool(ok), "literal store", f.loc, "%s|%s" % (short(f), op), "%s does not store %s and %s as opposite literals of one atom" % (short(f), op, NEG[op]))
                seen("tracker lookups")
        # defining rows of a literal: views recurse on the same condition, complements take the two halves of one pair
        if len(ps) == 1 and ps[0] == COND + IVID + ">" and "ProofLine" in ret and "variant" in ret:
            me = cxx.qcallee({"f": f.key}).split("::")[-1]
            halves = {}
            for op in NEG:
                for what, _ in World(prog, inline).variables(IVID):
                    w = World(prog, inline2(me))
                    c = w.cond(dict(w.variables(IVID))[what], op, IVID)
                    nf = normal(w.st, w.i, c)
                    w.st.mem[("self",)] = Term("self", (), "tracker")
                    for kind, s, v, node in attempt(f, "defining row", what, w, [c], ("self",)):
                        rec = [e for e in events(s, me)]
                        sig = "%s|%s|%s" % (short(f), op, what)
                        if rec:
                            a = [y for y in rec[0][1] if isinstance(y, Obj) and y.t.startswith(COND)]
                            got = normal(s, w.i, a[0]) if a else None
                            rep.check(samenf(s, w.i, got, nf), "defining row", f.at(rec[0][2]), sig, "%s of %s on a %s asks about %s; it means %s" % (short(f), op, what, fmt(got), fmt(nf)))
                            seen("tracker lookups")
                        elif kind == "return":
                            k = repr(w.i.vkey(s, v))
                            half = "first" if "'.first'" in k.split("(")[1] or k.startswith("('term', '.first'") else "second" if k.startswith("('term', '.second'") else None
                            halves.setdefault((what, "find_view" in k), {})[op] = (half, k.replace(".first", ".*", 1).replace(".second", ".*", 1))
            for (what, viaview), h in halves.items():
                for op in ("Equal", "GreaterEqual", "InRange"):
                    if op in h or NEG[op] in h:
                        ok = op in h and NEG[op] in h and h[op][0] == "first" and h[NEG[op]][0] == "second" and h[op][1] == h[NEG[op]][1]
                        rep.check(ok, "defining row", f.loc, "%s|%s|%s|halves" % (short(f), op, what), "%s does not give %s and %s the two halves of one definition" % (
                            short(f), op, NEG[op]))
                        seen("tracker lookups")
    for op in NEG:
        d = directions.get(op, {})
        a, b = d.get("find", set()), d.get("store", set())
        rep.check(len(a) == 1 and a == b, "literal direction", "gcs/innards/proofs", op, "a literal stored for a condition (%s) is not the one found for it" % op)
    # bounds of a view in terms of the underlying bounds
    for f in allf:
        ps = [tname(f.type(p["t"])) for p in f["params"]]
        if f.key.startswith("lambda@") or not f.file.startswith("gcs/innards/proofs/") or ps != [V] or tname(f.type(f["ret"])) != "std::pair<%s, %s>" % (INT, INT):
            continue
        for negate in (0, 1):
            w = World(prog, inline)
            w.st.mem[("self",)] = Term("self", (), "tracker")
            for kind, s, v, node in attempt(f, "view bounds", str(negate), w, [w.view(negate)], ("self",)):
                if kind != "return":
                    continue
                a, b = [poly(x) for x in v.f.values()]
                ma, mb = ([m for m in p if m and m != ("A",)] for p in (a, b))
                ok = len(ma) == len(mb) == 1 and ma != mb
                if ok:
                    sg = -1 if negate else 1
                    ok = p_key(a) == p_key({ma[0]: sg, ("A",): 1}) and p_key(b) == p_key({mb[0]: sg, ("A",): 1})
                    lo = ".0'" in repr(ma[0]) or "first" in repr(ma[0])
                    ok = ok and lo == (not negate)
                rep.check(ok, "view bounds", f.loc, "%s|%s" % (short(f), negate), "the bounds of a view are not the image of the underlying bounds")
                seen("tracker lookups")


def inline2(me):
    def inl(c):
        n = cxx.qcallee({"f": c.key}).split("::")[-1]
        return n != me and (n.startswith("operator") or c.key.startswith("lambda@"))
    return inl


def polarity(i, s, v):
    """(base literal, negated) of a literal value."""
    if isinstance(v, Obj) and "negated" in v.f and isinstance(v.f["negated"], Num):
        p = i.simp(s, v.f["negated"].p)
        c = i.const(s, p)
        k = i.vkey(s, v.f.get("id"))
        if c is not None:
            # resolved on this path: recover which way from the atom's own value
            for a, (iv, _) in s.atoms.items():
                if isinstance(a, tuple) and a[0] == "app" and a[1] == ".negated" and iv == ((c, c),):
                    return (k, False)
                if isinstance(a, tuple) and a[0] == "app" and a[1] == ".negated" and iv == ((1 - c, 1 - c),):
                    return (k, True)
            return None
        for m, q in p.items():
            if m:
                return (k, q < 0)
        return None
    if isinstance(v, Term):
        return (("app", ".id", i.vkey(s, v)) if False else field_key(i, s, v), False)
    return None


def field_key(i, s, v):
    return i.vkey(s, i.opaque(s, ".id", [v], "long long"))


if __name__ == "__main__":
    common.main(run)
