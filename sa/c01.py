"""C01: integer arithmetic is exact or throws."""
import absint
import common
import cxx
import ir
from absint import Interp, Num, Obj, Opt, State, iv_and, iv_bounds, p_add, p_atom, p_const, p_key, p_mul
from ir import walk

LL = "long long"
LO, HI = absint.RANGES[LL]
SIGNED_OPS = {"+", "-", "*", "/", "%", "<<", "++", "--", "+=", "-=", "*=", "/=", "%=", "<<="}

# Raw arithmetic outside the checked operators that interval analysis of the expression alone
# cannot discharge; one entry per file and operator with the reason it cannot go wrong.
BYPASS = {
    ("gcs/constraints/bin_packing/bin_packing.cc", "+="): "sum of the item sizes; the bounds pass of the same constraint adds the same sizes through checked operators and throws",
    ("gcs/constraints/bin_packing/bin_packing.cc", "+"): "a partial sum of the item sizes, at most their total",
    ("gcs/constraints/bin_packing/bin_packing.cc", "-"): "a reachable partial sum less one non-negative size, above the minimum",
    ("gcs/constraints/extensional_utils.cc", "+"): "size of a table row over a domain span already computed by a checked subtraction",
    ("gcs/constraints/extensional_utils.cc", "-"): "offset between two values of one variable's domain",
    ("gcs/constraints/sort/arg_sort.cc", "+"): "candidate sample point, kept only if it lies within the variable's bounds",
    ("gcs/constraints/sort/arg_sort.cc", "-"): "candidate sample point, kept only if it lies within the variable's bounds",
    ("gcs/presolvers/cumulative_strengthening/cumulative_strengthening.cc", "+="): "budget estimate for a derivation whose capacity-sized tables were already built",
    ("gcs/presolvers/cumulative_strengthening/cumulative_strengthening.cc", "+"): "budget estimate for a derivation whose capacity-sized tables were already built",
    ("gcs/presolvers/cumulative_strengthening/cumulative_strengthening.cc", "*"): "budget estimate for a derivation whose capacity-sized tables were already built",
}


def inline(f):
    return f.file.startswith("gcs/") and f.get("body") is not None and (
        f.file.endswith(("integer.hh", "integer_overflow.hh", "power.cc", "arithmetic_utils.hh", "product_bounds.hh")) or "(anonymous namespace)" in f.key or f.file.endswith("integer_overflow.cc"))


def describe(f):
    return f.key.replace("gcs::", "")


class Spec:
    """What an operation on Integers must compute: a function of its operands' polynomials."""

    def __init__(self, fn, undefined=None, target=None, post=None):
        self.fn, self.undefined, self.target, self.post = fn, undefined, target, post


def integer_param(f, i):
    t = absint.tname(f.type(f["params"][i]["t"]))
    return t == "gcs::Integer"


def classify(f):
    """(name, arity) of an arithmetic entry point on Integers, or None."""
    if f.r != "fn" or not f.get("body") or f.file.startswith("/"):
        return None
    nm = f.key.split("(")[0]
    short = nm.split("::")[-1]
    ps = f["params"]
    if nm.startswith("gcs::Integer::operator"):
        return short[8:], "member", len(ps)
    if short.startswith("operator") and nm.count("::") <= 2 and nm.startswith("gcs::"):
        if ps and all(integer_param(f, i) for i in range(len(ps))) and absint.tname(f.get_ret) == "gcs::Integer":
            return short[8:], "free", len(ps)
    if nm in ("gcs::abs", "gcs::innards::power2", "gcs::innards::checked_integer_power", "gcs::innards::product_if_representable"):
        return short, "named", len(ps)
    return None


def main():
    prog = ir.Program(ir.lib_units())
    rep = common.Report("C01", rule="interval/value-number abstract interpretation of every arithmetic operation on the integer type",
                        explanation="Each arithmetic operator and helper on gcs::Integer is analysed over all operand values by a path-splitting abstract interpreter "
                        "(unions of intervals, parity, polynomial value numbers): every built-in operation is shown to stay in range, every returned value to equal the "
                        "mathematical one, and every exception to occur only where that is unrepresentable or undefined. Built-in arithmetic on raw values anywhere else in the library is discharged by intervals or listed.")
    check_operators(prog, rep)
    check_power(prog, rep)
    check_rounding(prog, rep)
    check_bypass(prog, rep)
    controls(prog, rep)
    return rep.finish(prog)


def int_obj(st, it, iv=((LO, HI),), par=None):
    return Obj({"raw_value": it.fresh(st, LL, "in", iv, par)}, "gcs::Integer")


def raw(v):
    return v.f["raw_value"].p


def tdiv(it, st, x, y):
    return it.div(st, "/", x, y, LL).p


def trem(it, st, x, y):
    return it.div(st, "%", x, y, LL).p


BIN = {"+": lambda it, st, x, y: p_add(x, y), "-": lambda it, st, x, y: p_add(x, y, -1), "*": lambda it, st, x, y: p_mul(x, y),
       "/": tdiv, "%": trem}


def zero_div(it, st, y):
    return it.const(st, y) == 0


def spec_holds(it, st, got, want):
    a, b = it.simp(st, got), it.simp(st, want)
    return p_key(a) == p_key(b)


def out_of_range(it, st, p, ty=LL):
    if ("overflow", p_key(p), ty) in st.facts or any(k == "overflow" and it.simp(st, dict(q)) == it.simp(st, p) for k, q, _ in st.facts):
        return True
    return not iv_and(it.iv(st, p), (absint.RANGES[ty],))


def check_operators(prog, rep):
    seen = set()
    for key, f in sorted(prog.fns.items()):
        if f.r != "fn" or not key.startswith("gcs::"):
            continue
        c = kind_of(f)
        if not c:
            continue
        op, form = c
        seen.add((op, form))
        it = Interp(prog, inline)
        st = State()
        try:
            run_one(it, st, rep, f, op, form)
        except absint.TooHard as e:
            rep.undecided("operation", f.loc, "%s %s" % (op, form), "cannot interpret %s: %s" % (key, e))
    for want in (("+", "bin"), ("-", "bin"), ("*", "bin"), ("/", "bin"), ("%", "bin"), ("-", "un"), ("+=", "bin"), ("-=", "bin"),
                 ("++", "pre"), ("--", "pre"), ("++", "post"), ("--", "post"), ("abs", "un"), ("power2", "un"), ("product_if_representable", "bin")):
        rep.floor("operation %s (%s)" % want, 1 if want in seen else 0, 1)


def kind_of(f):
    nm = f.key.split("(")[0]
    ps = f["params"]
    if f.get("body") is None or f.get("coro"):
        return None
    short = nm.split("::")[-1]
    ret = absint.tname(f.type(f["ret"])) if "ret" in f else None
    ints = all(absint.tname(f.type(p["t"])) == "gcs::Integer" for p in ps)
    if nm in ("gcs::Integer::operator++", "gcs::Integer::operator--"):
        return short[8:], "post" if ps else "pre"
    if nm.startswith("gcs::operator") and ints and ps and f.key.startswith("gcs::operator"):
        op = nm[len("gcs::operator"):]
        if op in ("+", "-", "*", "/", "%") and len(ps) == 2:
            return op, "bin"
        if op in ("+=", "-=", "*=", "/=", "%=") and len(ps) == 2:
            return op, "bin"
        if op in ("-", "+") and len(ps) == 1:
            return op, "un"
    if nm.startswith("gcs::Integer::operator") and ints and len(ps) <= 1 and short[8:] in ("+", "-", "*", "/", "%", "+=", "-=", "*=", "/=", "%="):
        return short[8:], "mbin" if ps else "mun"
    if nm == "gcs::abs" and ints:
        return "abs", "un"
    if nm == "gcs::innards::power2":
        return "power2", "un"
    if nm == "gcs::innards::product_if_representable":
        return "product_if_representable", "bin"
    return None


def obligations(it, rep, where, name):
    for f, n, what, okk, detail in it.obligations:
        rep.check(okk, "in-range", f.at(n), "%s: %s in %s" % (name, what, describe(f)),
                  "%s: cannot show that %s (possible range %s)" % (describe(f), what, fmt(detail)), "%s: %s" % (name, what))


def fmt(d):
    return str(d)[:160]


def run_one(it, st, rep, f, op, form):
    ps = f["params"]
    this = None
    args = []
    if form in ("pre", "post", "mbin", "mun"):
        this = ("obj", "self")
        o = int_obj(st, it)
        st.mem[this] = o
        x = raw(o)
    vals = []
    for p in ps:
        if form == "post":
            args.append(Num({}, "int"))
            continue
        o = int_obj(st, it)
        vals.append(raw(o))
        if f.type(p["t"]).rstrip().endswith("&"):
            l = ("obj", p["d"])
            st.mem[l] = o
            args.append(("ref", l))
        else:
            args.append(o)
    if this is None:
        x = vals[0]
        y = vals[1] if len(vals) > 1 else None
        tgt = args[0][1] if isinstance(args[0], tuple) else None
    else:
        y = vals[0] if vals else None
        tgt = this
    outs = it.run(f, args, st, this)
    name = "%s%s" % ("unary " if form in ("un", "mun") and op == "-" else "", op)
    obligations(it, rep, f.loc, name)
    if not outs:
        rep.bad("exact", f.loc, "%s never returns" % name, "%s neither returns nor throws" % describe(f))
    for kind, s, v, node in outs:
        want, undefined = expected(it, s, op, form, x, y)
        where = f.at(node) if node and "p" in node else f.loc
        if kind == "throw":
            rep.check(undefined or (want is not None and out_of_range(it, s, want)), "throws-only-when-unrepresentable", where, "%s throws" % name,
                      "%s throws for operands whose result is representable" % describe(f), "%s throws only when unrepresentable" % name)
            continue
        if undefined:
            if op == "product_if_representable":
                continue
            rep.bad("defined", where, "%s undefined returns" % name, "%s returns a value where the operation is undefined" % describe(f))
            continue
        res = it.num(v)
        if op == "product_if_representable":
            if isinstance(v, Opt) and v.engaged is False:
                rep.check(out_of_range(it, s, want), "empty-only-when-unrepresentable", where, "%s empty" % name,
                          "%s gives no value for a representable product" % describe(f), name)
                continue
            res = it.num(v.v) if isinstance(v, Opt) else None
        if op.endswith("=") or form == "pre":
            o = s.mem.get(tgt)
            stored = raw(o) if isinstance(o, Obj) and isinstance(o.f.get("raw_value"), Num) else None
            rep.check(stored is not None and spec_holds(it, s, stored, want), "exact", where, "%s stored value" % name,
                      "%s does not store the exact result on some path" % describe(f), "%s stores the exact value" % name)
        if form == "post":
            o = s.mem.get(tgt)
            new = p_add(x, p_const(1 if op == "++" else -1))
            rep.check(isinstance(o, Obj) and spec_holds(it, s, raw(o), new), "exact", where, "post%s stored value" % name,
                      "%s does not store the exact result" % describe(f), "post%s stores the exact value" % name)
        rep.check(res is not None and spec_holds(it, s, res.p, want), "exact", where, "%s returned value" % name,
                  "%s does not return the exact result on some path" % describe(f), "%s returns the exact value" % name)


def expected(it, s, op, form, x, y):
    """(polynomial, undefined?)"""
    base = op[:-1] if op.endswith("=") else op
    if form == "post":
        nxt = p_add(x, p_const(1 if op == "++" else -1))
        return (nxt if out_of_range(it, s, nxt) else x), False
    if form == "pre":
        return p_add(x, p_const(1 if op == "++" else -1)), False
    if base in ("/", "%"):
        if zero_div(it, s, y):
            return None, True
        # minimum by -1 is not representable (quotient) and undefined in the language (remainder)
        if it.const(s, x) == LO and it.const(s, y) == -1:
            return p_const(2**63), False
        return BIN[base](it, s, x, y), False
    if base == "product_if_representable":
        return p_mul(x, y), False
    if base == "abs":
        iv = it.iv(s, x)
        lo, hi = iv_bounds(iv)
        if lo >= 0:
            return x, False
        if hi <= 0:
            return {m: -c for m, c in x.items()}, False
        return p_atom(("abs", p_key(x))), False
    if base == "power2":
        iv = it.iv(s, x)
        lo, hi = iv_bounds(iv)
        if hi < 0:
            return None, True
        if lo < 0:
            return p_atom(("pow2-maybe-negative", p_key(x))), False
        if lo >= 63:
            return p_const(2**63), False
        return it.shl(s, p_const(1), x, LL).p, False
    if form in ("un", "mun"):
        return ({m: -c for m, c in x.items()} if base == "-" else x), False
    return BIN[base](it, s, x, y), False


# ---- integer powers ----------------------------------------------------------
def check_power(prog, rep):
    fs = [f for k, f in prog.fns.items() if k.startswith("gcs::innards::checked_integer_power(")]
    rep.floor("checked_integer_power", len(fs), 1)
    if not fs:
        return
    f = fs[0]
    bases = [("base 0", ((0, 0),), 0), ("base 1", ((1, 1),), 1), ("base -1", ((-1, -1),), 1), ("base > 1", ((2, HI),), None), ("base < -1", ((LO, -2),), None)]
    exps = [("exponent 0", ((0, 0),), 0), ("odd exponent > 0", ((1, HI),), 1), ("even exponent > 0", ((2, HI - 1),), 0),
            ("odd exponent < 0", ((LO + 1, -1),), 1), ("even exponent < 0", ((LO, -2),), 0)]
    for bn, bi, bp in bases:
        for en, ei, ep in exps:
            it = Interp(prog, inline)
            st = State()
            b, e = int_obj(st, it, bi, bp), int_obj(st, it, ei, ep)
            name = "power, %s, %s" % (bn, en)
            outs = it.run(f, [b, e], st)
            for ff, n, what, okk, detail in it.obligations:
                rep.check(okk, "in-range", ff.at(n), "power: %s in %s" % (what, describe(ff)),
                          "%s: cannot show that %s for %s (possible range %s)" % (describe(ff), what, name, fmt(detail)), "%s: %s" % (name, what))
            if en == "exponent 0" or bn == "base 1":
                want = 1
            elif bn == "base -1":
                want = -1 if ep else 1
            elif bn == "base 0":
                want = None if "<" in en else 0
            elif "< 0" in en:
                want = 0
            else:
                want = "loop"
            for kind, s, v, node in outs:
                where = f.at(node) if node and "p" in node else f.loc
                if kind == "throw":
                    rep.bad("power-value", where, "power throws (%s, %s)" % (bn, en), "%s throws for %s, %s" % (describe(f), bn, en))
                    continue
                eng = v.engaged if isinstance(v, Opt) else None
                val = it.num(v.v) if isinstance(v, Opt) and v.engaged else None
                if want == "loop":
                    if eng is False:
                        rep.check(any(k == "overflow" for k, _, _ in s.facts), "power-value", where, "power empty (%s, %s)" % (bn, en),
                                  "%s gives no value for %s, %s although nothing overflowed" % (describe(f), bn, en), name)
                    continue
                if want is None:
                    rep.check(eng is False, "power-value", where, "power %s %s" % (bn, en), "%s gives a value for 0 to a negative power" % describe(f), name)
                else:
                    c = it.const(s, val.p) if val is not None else None
                    rep.check(c == want, "power-value", where, "power %s %s" % (bn, en),
                              "%s gives %s for %s, %s where the value is %d" % (describe(f), "no value" if eng is False else c, bn, en, want), name)
            if want == "loop":
                loop_invariant(it, rep, f, name, outs, raw(b), raw(e), ep)


def loop_invariant(it, rep, f, name, outs, base, exp, ep):
    """Some pair of loop variables keeps  r * b^e  (or the loop counts  r = b^i)  through every path of the body."""
    loops = [l for l in it.loops if l["fn"].key == f.key or True]
    if not loops:
        rep.bad("power-loop", f.loc, "power loop missing", "%s returns a value for a general base and exponent without computing it" % describe(f))
        return
    l = loops[-1]
    head = l["head"]
    vs = [(k, v) for k, v in head.mem.items() if isinstance(k, tuple) and k[0] == l["frame"] and isinstance(v, (Num, Obj)) and it.num(v) is not None]
    changed = [k for k, v in vs if k[1] in l["ids"]]

    def val(st, k):
        x = it.num(st.mem.get(k))
        return x.p if x is not None else None

    why = "no loop variables act as result, base and exponent"
    for r in changed:
        for e in changed:
            for b in [k for k, _ in vs if k not in (r, e)]:
                ok = invariant_holds(it, l, r, b, e, val, base, exp)
                if ok is True:
                    # every value returned after the loop is r (or provably base^exp)
                    rep.ok("power-loop", "%s keeps r*b^e" % name)
                    bad = [1 for kind, s, v, _ in outs if kind == "return" and isinstance(v, Opt) and v.engaged and not same(it, s, it.num(v.v), val(s, r))]
                    R, B = val(head, r), val(head, b)
                    for kind, s, v, nd in outs:
                        if kind == "return" and isinstance(v, Opt) and v.engaged is False:
                            for k, q, _ in s.facts:
                                if k == "overflow" and p_key(it.simp(s, dict(q))) == p_key(it.simp(s, p_mul(B, B))):
                                    ev = val(s, e)
                                    left = it.iv(s, ev) if ev is not None else ()
                                    rep.check(bool(left) and iv_bounds(left)[0] >= 1, "power-value", f.at(nd) if nd else f.loc, "power gives up squaring",
                                              "%s gives no value when a square that no remaining factor needs overflows" % describe(f), name + " squares only when needed")
                    rep.check(not bad, "power-loop", f.loc, "power returns result", "%s does not return the variable that accumulated the power" % describe(f), name + " returns it")
                    return
                if ok is not False:
                    why = ok
    rep.bad("power-loop", f.at(l["node"]), "power loop", "%s: the loop does not keep result * base^exponent equal to the power asked for (%s)" % (describe(f), why))


def same(it, s, x, p):
    return x is not None and p is not None and p_key(it.simp(s, x.p)) == p_key(it.simp(s, p))


def invariant_holds(it, l, r, b, e, val, base, exp):
    h, en = l["head"], l["entry"]
    R, B, E = val(h, r), val(h, b), val(h, e)
    if None in (R, B, E):
        return False
    r0, b0, e0 = val(en, r), val(en, b), val(en, e)
    if None in (r0, b0, e0):
        return False
    if not (it.const(en, r0) == 1 and p_key(b0) == p_key(base) and p_key(e0) == p_key(exp)):
        return False
    for s in l["back"] + l["exits"]:
        r1, b1, e1 = val(s, r), val(s, b), val(s, e)
        if None in (r1, b1, e1):
            return False
        rk, rr = it.simp(s, r1), it.simp(s, R)
        e1c = it.const(s, e1)
        # how many factors of b went into r on this path
        take = None
        if p_key(rk) == p_key(rr):
            take = 0
        elif p_key(rk) == p_key(it.simp(s, p_mul(R, B))):
            take = 1
        if take is None:
            return "the result is multiplied by something other than the base"
        same_b = p_key(it.simp(s, b1)) == p_key(it.simp(s, B))
        sq_b = p_key(it.simp(s, b1)) == p_key(it.simp(s, p_mul(B, B)))
        par = it.parity(s, E)
        half = p_key(it.simp(s, e1)) in (p_key(it.simp(s, p_atom((">>", p_key(it.simp(s, E)), 1)))), p_key(it.simp(s, p_atom(("/", p_key(it.simp(s, E)), p_key(p_const(2)))))))
        less = p_key(it.simp(s, e1)) == p_key(it.simp(s, p_add(E, p_const(-take))))
        if less and same_b:
            # e' = e - take; a loop exit needs e' = 0
            pass
        elif half and (sq_b or e1c == 0 or iv_bounds(it.iv(s, e1))[1] <= 0):
            if par is None or par != take:
                return "a factor is taken when the exponent's low bit is not set, or skipped when it is"
        elif half:
            return "the base is not squared when the exponent is halved"
        else:
            return "the exponent is not reduced in step with the result"
        if s in l["exits"]:
            iv = it.iv(s, e1)
            if iv and iv_bounds(iv)[1] > 0:
                return "the loop can end before the exponent is used up"
    return True


# ---- rounding division ---------------------------------------------------------
def neg(p):
    return {m: -c for m, c in p.items()}


def floor_form(it, s, p):
    """Rewrites truncated divisions of known sign to floors of non-negative quotients, reduced by whole divisors."""
    p = it.simp(s, p)
    out = {}
    for m, c in p.items():
        divs = [a for a in m if isinstance(a, tuple) and a[0] == "/"]
        if not divs:
            out = p_add(out, {m: c})
            continue
        if len(m) != 1:
            return None
        _, xk, yk = divs[0]
        x, y = it.simp(s, dict(xk)), it.simp(s, dict(yk))
        xi, yi = it.iv(s, x), it.iv(s, y)
        if not xi or not yi:
            return None
        sx = 1 if iv_bounds(xi)[0] >= 0 else -1 if iv_bounds(xi)[1] <= 0 else 0
        sy = 1 if iv_bounds(yi)[0] > 0 else -1 if iv_bounds(yi)[1] < 0 else 0
        if not sx or not sy:
            return None
        out = p_add(out, floor_atom(x if sx > 0 else neg(x), y if sy > 0 else neg(y)), c * sx * sy)
    return out


def floor_atom(x, y):
    """floor(x / y) with multiples of y taken out of x."""
    k = 0
    (ym, yc) = max(y.items(), key=repr)
    if ym != () and yc and x.get(ym, 0) and x[ym] % yc == 0 and p_key(y) != p_key(x) or p_key(y) == p_key(x):
        k = x[ym] // yc
        x = p_add(x, y, -k)
    r = p_atom(("F", p_key(x), p_key(y))) if x else {}
    return p_add(r, p_const(k))


def check_rounding(prog, rep):
    for nm, up in (("div_floor", False), ("div_ceil", True)):
        fs = [f for k, f in prog.fns.items() if k.startswith("gcs::innards::%s(" % nm)]
        rep.floor(nm, len(fs), 1)
        for f in fs[:1]:
            for an, ai in (("negative", ((LO, -1),)), ("zero", ((0, 0),)), ("positive", ((1, HI),))):
                for bn, bi in (("negative", ((LO, -1),)), ("zero", ((0, 0),)), ("positive", ((1, HI),))):
                    it = Interp(prog, inline)
                    st = State()
                    a, b = int_obj(st, it, ai), int_obj(st, it, bi)
                    name = "%s, %s by %s" % (nm, an, bn)
                    outs = it.run(f, [a, b], st)
                    for ff, n, what, okk, detail in it.obligations:
                        rep.check(okk, "in-range", ff.at(n), "%s: %s in %s" % (nm, what, describe(ff)),
                                  "%s: cannot show that %s for %s (possible range %s)" % (describe(ff), what, name, fmt(detail)), "%s: %s" % (name, what))
                    x, y = raw(a), raw(b)
                    ax, ay = (neg(x) if an == "negative" else x), (neg(y) if bn == "negative" else y)
                    for kind, s, v, node in outs:
                        if kind == "throw":
                            continue
                        where = f.at(node) if node and "p" in node else f.loc
                        if bn == "zero":
                            rep.bad("rounding", where, "%s by zero" % nm, "%s returns a value for a division by zero" % describe(f))
                            continue
                        got = it.num(v)
                        got = floor_form(it, s, got.p) if got is not None else None
                        cx, cy = it.simp(s, ax), it.simp(s, ay)
                        fl = floor_atom(cx, cy)
                        cl = p_add(floor_atom(p_add(cx, p_const(-1)), cy), p_const(1))
                        if an == "zero":
                            want = {}
                        elif an == bn:
                            want = cl if up else fl
                        else:
                            want = neg(fl) if up else neg(cl)
                        rem = it.iv(s, it.div(s, "%", x, y, LL).p)
                        if got is not None and rem and an != "zero":
                            # knowing whether it divides exactly relates floor(n/m) and floor((n-1)/m)
                            exact = rem == ((0, 0),)
                            if exact or not iv_and(rem, ((0, 0),)):
                                low = p_add(floor_atom(p_add(cx, p_const(-1)), cy), p_const(1 if exact else 0))
                                got, want = substitute(got, fl, low), substitute(want, fl, low)
                        okk = got is not None and p_key(got) == p_key(want)
                        if not okk and got is not None:
                            okk = numeric_const(it, s, x, y, got, up)
                        rep.check(okk, "rounding", where, name, "%s does not round %s for %s dividend and %s divisor" % (describe(f), "up" if up else "down", an, bn), name)


def substitute(p, atom_poly, by):
    (m, c), k = next(((m, c) for m, c in atom_poly.items() if m), (None, 0)), atom_poly.get((), 0)
    if m is None or m not in p:
        return p
    n = p[m] // c
    q = dict(p)
    del q[m]
    return p_add(q, p_add(by, p_const(-k)), n)


def numeric_const(it, s, x, y, got, up):
    """Constant operands (a path on which both are pinned)."""
    a, b, g = it.const(s, x), it.const(s, y), it.const(s, got)
    if None in (a, b, g) or not b:
        return False
    return g == (-((-a) // b) if up else a // b)


# ---- raw arithmetic elsewhere --------------------------------------------------
def expr_range(it, st, f, n, env):
    """Interval of an expression with unknown operands."""
    out = []
    fr = dict(f=f, id=0, this=None)
    vals = it.expr(fr, n, st, out)
    return vals


def check_bypass(prog, rep):
    covered = {k for k, f in prog.fns.items() if kind_of(f)} | {"gcs::innards::checked_integer_power(gcs::Integer, gcs::Integer)"}
    sites = 0
    listed = {}
    for key, f in sorted(prog.fns.items()):
        if key in covered or f.file.startswith("/") or not f.get("body"):
            continue
        if f.key.startswith("lambda@"):
            continue
        for x in walk(f["body"]):
            if x["k"] not in ("BinaryOperator", "UnaryOperator", "CompoundAssignOperator") or x.get("op") not in SIGNED_OPS:
                continue
            if x["k"] == "UnaryOperator" and x.get("op") not in ("-", "++", "--"):
                continue
            t = absint.tname(f.type(x))
            if t not in absint.RANGES or t in absint.UNSIGNED or t == "bool":
                continue
            if not any(mentions_raw(c) for c in x.get("c") or ()):
                continue
            sites += 1
            it = Interp(prog, inline)
            st = State()
            try:
                run_site(it, f, x, st)
                mine = [o for o in it.obligations if o[1] is x]
                okk = all(o[3] for o in mine)
            except absint.TooHard:
                okk = False
            if not okk:
                okk = whole_function(prog, f, x)
            k = (f.file, x["op"])
            if okk:
                rep.ok("raw-arithmetic", "%s '%s'" % (f.at(x), x["op"]))
            elif k in BYPASS:
                rep.ok("raw-arithmetic-listed", "%s '%s': %s" % (f.at(x), x["op"], BYPASS[k]))
            else:
                rep.bad("raw-arithmetic", f.at(x), "%s '%s'" % (f.file, x["op"]),
                        "%s applies built-in '%s' to a value taken out of Integer, which can wrap silently" % (describe(f)[:120], x["op"]))
    rep.extra["raw_arithmetic_sites"] = sites


def run_site(it, f, x, st):
    it.expr(dict(f=f, id=0, this=None), x, st, [])


def whole_function(prog, f, x):
    """Path-sensitive attempt: the guards in the enclosing function may bound the operands."""
    it = Interp(prog, inline, max_paths=200)
    st = State()
    try:
        args = []
        for p in f["params"]:
            ty = f.type(p["t"])
            v = it.unknown(st, ty)
            if ty.rstrip().endswith("&"):
                l = ("obj", p["d"])
                st.mem[l] = v
                v = ("ref", l)
            args.append(v)
        it.run(f, args, st, ("thisobj",))
    except (absint.TooHard, RecursionError):
        return False
    mine = [o for o in it.obligations if o[1] is x]
    return bool(mine) and all(o[3] for o in mine)


def mentions_raw(n):
    """raw_value contributes to the operand's value (not merely to a subscript)."""
    if not isinstance(n, dict):
        return False
    k = n["k"]
    if k == "MemberExpr" and n.get("d") == "gcs::Integer::raw_value":
        return True
    if k == "ArraySubscriptExpr" or (k == "CXXOperatorCallExpr" and n.get("op") == "[]"):
        return False
    if k in cxx.CALLS or k == "LambdaExpr":
        return False
    return any(mentions_raw(c) for c in n.get("c") or () if isinstance(c, dict))


def controls(prog, rep):
    """The machinery must still refuse an unguarded operation."""
    it = Interp(prog, inline)
    st = State()
    a, b = it.fresh(st, LL), it.fresh(st, LL)
    f = next(iter(prog.fns.values()))
    n = {"k": "BinaryOperator", "op": "+", "c": []}
    it.arith(dict(f=f, id=0, this=None), n, st, "+", a, b, LL)
    it.arith(dict(f=f, id=0, this=None), n, st, "/", a, b, LL)
    if sum(1 for o in it.obligations if not o[3]) != 3:
        raise ir.Broken("control: an unguarded operation was accepted")
    rep.extra["control"] = "unguarded +, / and minimum-by--1 rejected"


common.main(main)
