"""C15: proof steps are derived, never assumed, unless asked for."""
import re

import ir
from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS
from common import Report, main
from c17 import plain
from c07 import short_fn
from flow import Engine, St, TooHard, TRUE, FALSE
from levels import Level, LEVEL, ASSERT


def ours(f):
    return f.get("body") and not f.get("pattern") and not f.file.endswith(("_test.cc", "_tests.cc")) and "/test" not in f.file and f.file.startswith(("gcs/", "minizinc/", "xcsp/", "scp/"))


RULE_TEXT = re.compile(r"^a( $| [{+~@:0-9-])")


def sites(f):
    """Where a function makes something that says a step is to be assumed, or writes such a step itself."""
    for x in walk(f["body"]):
        if x["k"] == "StringLiteral" and isinstance(x.get("v"), str) and RULE_TEXT.match(x["v"]):
            yield x
        if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "InitListExpr") and "t" in x and plain(f.type(x)) in ASSERT:
            if not any(isinstance(c, dict) and "t" in c and plain(f.type(c)) in ASSERT for c in x.get("c") or ()):
                yield x



# What may be assumed at each level, from the documentation of AssertionLevel: inferences from Definitions to Inferences, links at Links, backtracking and the
# conclusion from Inferences on, and what a solution adds whenever there are no links to derive it from.
OBJECT = "gcs::innards::"
MAY = [(re.compile(r"gcs::innards::ProofLogger::(backtrack|conclude_\w+)$"), ("Inferences", "Backtracking"), "backtracking and conclusions"),
       (re.compile(r"gcs::innards::ProofLogger::solution$"), ("Links", "Inferences", "Backtracking"), "solutions"),
       (re.compile(r"gcs::innards::(ProofLogger::infer|infer_explicitly)$"), ("Definitions", "Links", "Inferences"), "inferences"),
       (re.compile(r"gcs::innards::NamesAndIDsTracker::\w+$"), ("Links",), "links")]


def rule_for(f):
    q = strip_targs(f.key.split("(")[0]) if not f.key.startswith("(anonymous") else ""
    q = strip_targs(qcallee({"f": f.key})) or q
    return next(((ok, what) for r, ok, what in MAY if r.match(q)), None)


class Assumed:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.order = [v["n"] for v in prog.enums[LEVEL]["values"]]
        self.fs, self.callers = {}, {}
        seen = set()
        for d in (prog.fns, prog.insts):
            for k, f in d.items():
                if ours(f) and not f.get("lambda") and (f.loc, f.get("begin")) not in seen:
                    seen.add((f.loc, f.get("begin")))
                    self.fs[k] = f
        for k, f in self.fs.items():
            for x in walk(f["body"]):
                if x["k"] in CALLS and x.get("f"):
                    self.callers.setdefault(x["f"], set()).add(k)

    def requested(self, f):
        """Positions inside code that is only given what a caller has said is to be assumed."""
        out = set()
        for x in walk(f["body"]):
            if x["k"] == "LambdaExpr" and any(plain(f.type(p["t"])).replace("const ", "").rstrip("& ") in ASSERT for p in x.get("params") or () if isinstance(p, dict) and "t" in p):
                out |= {(y.get("p"), y["k"]) for y in walk(x)}
        return out

    def reached(self, root, level, inline):
        e = Level(self.prog, level, self.order)
        e.inlined = set(inline)
        e.run(root, St({}, frozenset()))
        return e.reached

    def run(self):
        n = 0
        for k, f in sorted(self.fs.items(), key=lambda x: x[1].loc):
            asked = self.requested(f)
            ss = [x for x in sites(f) if (x.get("p"), x["k"]) not in asked]
            if not ss:
                continue
            n += len(ss)
            for L in self.order:
                try:
                    self.decide(f, f, ss, L, [])
                except TooHard as ex:
                    self.rep.undecided("assumed-only-when-asked", f.loc, short_fn(f) + "|" + L, "could not be followed: %s" % ex)
        self.rep.floor("places where a step is assumed", n, 8)

    def decide(self, f, root, ss, L, chain):
        rep = self.rep
        got = self.reached(root, L, [g.key for g in chain])
        hit = [x for x in ss if (f.file, x.get("p"), x["k"]) in got]
        rule = rule_for(root)
        if rule is None and hit and len(chain) < 4:
            cs = [self.fs[c] for c in sorted(self.callers.get(root.key, ())) if c in self.fs and self.fs[c] is not root and self.fs[c] not in chain]
            if cs and root.get("kind") != "virtual":
                for c in cs:
                    self.decide(f, c, ss, L, chain + [root])
                return
        allowed = rule[0] if rule else tuple(l for l in self.order if l != "Off")
        for x in ss:
            if x not in hit or L in allowed:
                rep.ok("assumed-only-when-asked", "%s at %s" % (f.at(x), L))
            else:
                rep.bad("assumed-only-when-asked", f.at(x), "%s|%s" % (short_fn(f), L),
                        "a step assumed without being derived can be written here when the assertion level is %s%s%s" % (
                            L, ", which asks for %s to be derived" % rule[1] if rule and L != "Off" else ", which asks for every step to be derived" if L == "Off" else "",
                            " (reached from %s)" % short_fn(root) if root is not f else ""))


OPTIONS = "gcs::ProofOptions"


class Options(Engine):
    """What is known to have been written to the options."""
    max_depth = 3

    def __init__(self, prog, level, flags):
        super().__init__(prog)
        self.level, self.flags = level, flags

    def run(self, rec, st, this="this", args=None, closure=None):
        if not self.stack:
            args = [("arg", p["d"]) if plain(rec.type(p["t"])) == LEVEL else None for p in rec["params"]]
        return super().run(rec, st, this, args, closure)

    def on_write(self, fr, n, st, key, val):
        f = next((d for d in self.flags | {self.level} if key and (key.endswith("." + d.rsplit("::", 1)[1]) or key.endswith(d))), None)
        if f is None:
            return st
        base = key[:len(key) - len(f.rsplit("::", 1)[1])]
        unasked = any(k.endswith(g.rsplit("::", 1)[1]) and v == FALSE for k, v in st.env.items() for g in self.flags)
        return st.with_ts(frozenset(x for x in st.ts if x[1] != f) | {("w", f, val, unasked)})


class Chosen:
    """The level used is the one asked for, and is Off unless one was."""

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep

    def run(self):
        prog, rep = self.prog, self.rep
        n = 0
        for key, r in prog.classes.items():
            for fl in r.get("fields") or ():
                if plain(r.type(fl["t"])) != LEVEL or not isinstance(fl.get("init"), dict):
                    continue
                n += 1
                c = [x for x in walk(fl["init"]) if x["k"] == "EnumConst"]
                rep.check(not c or c[0]["n"] == "Off", "off-unless-asked", "%s:%s" % (r.get("file"), fl.get("p")), fl.get("d"),
                          "the assertion level of %s starts as something other than Off" % key)
        rep.floor("assertion levels that are given a starting value", n, 1)
        fs = [f for f in prog.fns.values() if ours(f) and not f.get("lambda")]
        for f in fs:
            self.writes(f)
        self.options(fs)

    def options(self, fs):
        """A level chosen in code is the one used, whatever the environment says."""
        prog, rep = self.prog, self.rep
        cls = prog.classes[OPTIONS]
        level = [x["d"] for x in cls.get("fields") if plain(cls.type(x["t"])) == LEVEL]
        flags = {x["d"] for x in cls.get("fields") if plain(cls.type(x["t"])) == "bool"}
        if len(level) != 1:
            raise ir.Broken("ProofOptions does not have exactly one assertion level")
        def touches(f, ds):
            return any(x["k"] == "MemberExpr" and x.get("d") in ds for x in walk(f["body"]))
        def sets(f):
            return any(x["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and x.get("op") == "=" and strip(x["c"][0]).get("d") == level[0] for x in walk(f["body"]))
        writers = [f for f in fs if sets(f)]
        outer = [f for f in writers if f.get("class") != OPTIONS and f.get("cls") != OPTIONS]
        inner = [f for f in writers if f not in outer]
        used = {x["d"] for f in outer for x in walk(f["body"]) if x["k"] == "MemberExpr" and x.get("d") in flags}
        rep.floor("functions that set the assertion level", len(writers), 1)
        for f in inner:
            e = Options(prog, level[0], flags)
            for o in e.run(f, St({}, frozenset())):
                if o[0] not in ("next", "return"):
                    continue
                w = {x[1]: x[2] for x in o[1].ts if x[0] == "w"}
                ok = all(w.get(d) == TRUE for d in used) if used else True
                rep.check(ok, "chosen-level-is-kept", f.loc, short_fn(f), "%s can set the level without it being remembered that it was chosen, so that the environment overrides it" % short_fn(f))
                v = w.get(level[0])
                p = [x["d"] for x in f["params"] if plain(f.type(x["t"])) == LEVEL]
                if len(p) == 1 and level[0] in w and v is None:
                    rep.undecided("chosen-level-is-kept", f.loc, short_fn(f) + "|value", "the level set could not be read")
                elif len(p) == 1:
                    rep.check(v == ("arg", p[0]), "chosen-level-is-kept", f.loc, short_fn(f) + "|value", "%s can leave a level other than the one it was given" % short_fn(f))
        for f in outer:
            e = Options(prog, level[0], flags)
            for o in e.run(f, St({}, frozenset())):
                for x in o[1].ts:
                    if x[0] == "w" and x[1] == level[0]:
                        rep.check(x[3], "chosen-level-is-kept", f.loc, short_fn(f) + "|override", "%s can replace a level that was chosen in code" % short_fn(f))

    def writes(self, f):
        rep = self.rep
        for x in walk(f["body"]):
            if x["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and x.get("op") == "=" and len(x.get("c") or ()) == 2 and isinstance(x["c"][0], dict) and "t" in x["c"][0] \
                    and plain(f.type(x["c"][0])) == LEVEL:
                cs = [y for y in walk(x["c"][1]) if y["k"] == "EnumConst"]
                rep.check(all(c["n"] == "Off" for c in cs), "off-unless-asked", f.at(x), short_fn(f),
                          "the assertion level is set here to one that nobody asked for")
        for x in walk(f["body"]):
            if x["k"] != "IfStmt":
                continue
            th = x.get("then")
            rs = [y for y in walk(th, False)] if isinstance(th, dict) else []
            rets = [y for y in rs if y["k"] == "ReturnStmt"]
            es = [y for r in rets for y in walk(r, False) if y["k"] == "EnumConst" and plain(f.type(y)) == LEVEL] if rets else []
            lits = [y["v"] for y in walk(x.get("cond")) if y["k"] == "StringLiteral"] if isinstance(x.get("cond"), dict) else []
            if len(rets) == 1 and len(es) == 1 and lits and not any(y["k"] == "IfStmt" for y in rs):
                e = es[0]["n"]
                i = [v["n"] for v in self.prog.enums[LEVEL]["values"]].index(e)
                for l in lits:
                    rep.check(l.lower() in (e.lower(), str(i)), "level-is-the-one-named", f.at(x), "%s|%s" % (short_fn(f), l),
                              "asking for assertion level '%s' gives %s" % (l, e))


RULE = """With the assertion level fixed at each of its values in turn, and every test of it evaluated, no code that makes an AssertProofRule (or writes an 'a' step as text, or makes an
AssertRatherThanJustifying request) can be reached at a level whose documentation asks for that kind of step to be derived; at Off, none can be reached at all, except inside code that is handed a caller's own
AssertRatherThanJustifying or the AssertProofRule it is to write.  The level starts as Off, is never set to a constant other than Off, and each name of a level selects that level."""
EXPLANATION = """Partial evaluation of the control flow of every function that can write an assumed step, once per assertion level, path-sensitively and through closures; helpers are followed into their
callers."""


def run():
    rep = Report("C15", "other", rule=RULE, explanation=EXPLANATION)
    prog = ir.Program(ir.lib_units())
    rep.part("assumed", lambda: Assumed(prog, rep).run())
    rep.part("chosen", lambda: Chosen(prog, rep).run())
    return rep.finish(prog)


if __name__ == "__main__":
    main(run)
