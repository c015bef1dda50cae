"""C08: every inference made while proof logging is written to the proof."""
import re

import ir
from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS
from common import Report, main
from c17 import plain
from c07 import short_fn
import tracker
from flow import Engine, St, TooHard, NULL, TRUE, FALSE
from levels import Level, LEVEL

QUIET = ("NoChange",)
FAIL = "Contradiction"


def same(a, b):
    """Whether two literals are the same: True, False, or None when that cannot be told."""
    a, b = bare(a), bare(b)
    if a is None or b is None or unknown(a) or unknown(b):
        return None
    return a == b


def bare(t):
    if isinstance(t, tuple) and t and t[0] == "lit" and t[1] == "as":
        return bare(t[2])
    if isinstance(t, tuple):
        return tuple(bare(x) if isinstance(x, tuple) else x for x in t)
    return t


def unknown(t):
    return isinstance(t, tuple) and (None in t or "?" in t or any(unknown(x) for x in t))


class Judge:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.seen = set()
        self.fired = 0
        self.logged = 0

    def __call__(self, e, at, s, kind, v, fn):
        root = e.root
        who = short_fn(root)
        nolog = not e.materialises or e.logger_null(s)
        p = e.pend(s)
        logs = [x for x in s.ts if x[0] == "log"]
        steps = {x[1] for x in s.ts if x[0] == "steps"}
        rep = self.rep
        failed = kind == "throw" and isinstance(v, tuple) and v[0] == "t" and v[1] == tracker.FAILED
        if p is None:
            if failed and not nolog:
                ls = [x for x in logs if x[1] == ("lit", "FalseLiteral")]
                if not ls and any(x[1] is None for x in logs):
                    rep.undecided("failures-are-logged", at, who, "what is logged before this failure could not be read")
                else:
                    rep.check(bool(ls), "failures-are-logged", at, who, "%s can report a failure while a proof is being written without writing the contradiction to the proof" % who)
                for x in ls:
                    self.justified(e, at, s, x, steps, who)
            return
        _, outcome, what = p
        inside = [x for x in logs if x[3] == "in"]
        if outcome in QUIET:
            if failed:
                rep.bad("failures-are-logged", at, "%s|nochange" % who, "%s can report a failure for a change that had no effect" % who)
            return
        self.fired += 1
        if outcome == FAIL and kind == "next":
            rep.bad("failures-stop", at, "%s|goes-on" % who, "%s can go on to another change after one that emptied a domain" % who)
        if outcome == FAIL and kind == "return":
            self.told(e, at, s, v, who)
        if nolog:
            return
        if not inside:
            rep.bad("changes-are-logged", at, "%s|%s" % (who, outcome),
                    "%s can change a domain (%s) while a proof is being written without anything being written to the proof" % (who, outcome))
            return
        oks = [same(x[1], what) for x in inside]
        if True in oks:
            rep.ok("changes-are-logged", "%s %s" % (who, outcome))
            self.logged += 1
        elif None in oks:
            rep.undecided("changes-are-logged", at, "%s|%s" % (who, outcome), "whether the literal logged is the one inferred could not be told")
        else:
            rep.bad("changes-are-logged", at, "%s|%s|other" % (who, outcome), "%s changes a domain by one literal and writes a different one to the proof" % who)
        for x, ok in zip(inside, oks):
            if ok:
                self.justified(e, at, s, x, steps, who)

    def told(self, e, at, s, v, who):
        """The caller hears that a domain was emptied."""
        rep = self.rep
        t = plain(e.root.type(e.root["ret"])) if "ret" in e.root.d else ""
        if t in ("void", ""):
            rep.bad("failures-stop", at, "%s|silent" % who, "%s can return as though nothing were wrong after emptying a domain" % who)
        elif v is None:
            rep.undecided("failures-stop", at, "%s|value" % who, "what is returned after a domain is emptied could not be read")
        else:
            rep.check(v in (FALSE, NULL), "failures-stop", at, "%s|told" % who, "%s can return as though nothing were wrong after emptying a domain" % who)

    def justified(self, e, at, s, x, steps, who):
        """The justification given to the proof is the caller's."""
        j = x[2]
        why = [p for p in e.root["params"] if re.search(r"Justif|NoJustificationNeeded|AssertRather|^const std::variant<", e.root.type(p["t"])) and "Literal" not in p.get("n", "")
               and "AssertionAnnotation" not in e.root.type(p["t"])[:40]]
        why = [p for p in why if re.search(r"Justify|Justification", e.root.type(p["t"]))]
        if len(why) != 1 or j is None:
            self.rep.undecided("justification-is-the-callers", at, who, "the justification given to the proof could not be read")
            return
        P, T = why[0]["d"], e.root.type(why[0]["t"])
        ok = None
        if j[0] == "explicit":
            ok = j[1] is not None and j[1].startswith(P) and j[1].endswith(".emit") and j[2] is not None and j[2].startswith(P) and j[2].endswith(".then_rup")
            if j[1] is None or j[2] is None:
                ok = None
        elif j[0] == "at":
            ok = j[1] == P or j[1].startswith(P + ".") or j[1].startswith(P + "[") if not local_of(e, j[1]) else None
        elif j[0] == "just" and j[1] == "JustifyUsingRUP":
            ok = "JustifyUsingRUP<" in T or P + ".emit" in steps
            if not ok and "std::variant" in T:
                ok = None
        elif j[0] == "just" and j[1] == "NoJustificationNeeded":
            ok = P + ".emit" in steps and s.env.get(P + ".then_rup") != ("c", "Yes")
        if ok is None:
            self.rep.undecided("justification-is-the-callers", at, who, "where the justification given to the proof comes from could not be told")
        else:
            self.rep.check(ok, "justification-is-the-callers", at, "%s|%s" % (who, j[0]), "%s gives the proof a justification other than the one its caller supplied" % who)


def local_of(e, place):
    return place.split(".")[0].split("[")[0] not in {p["d"] for p in e.root["params"]}


EMITS = ("emit", "emit_under_reason", "emit_rup_proof_line", "emit_rup_proof_line_under_reason")
NONEED = "NoJustificationNeeded"


class Back(Level):
    """What the code that writes an inference to the proof does with it, at one assertion level."""
    visit = tracker.Tracker.visit
    lambdas = staticmethod(tracker.Tracker.lambdas)
    mark = staticmethod(tracker.Tracker.mark)

    def __init__(self, prog, level, order, root, rep, who):
        super().__init__(prog, level, order)
        self.root, self.rep, self.who = root, rep, who
        self.lit = next((p["d"] for p in root["params"] if plain(root.type(p["t"])).startswith("std::variant<gcs::VariableConditionFrom<")), None)
        self.reason = next((p["d"] for p in root["params"] if "small_vector<" in root.type(p["t"])[:30] or "std::vector<" in root.type(p["t"])[:20]), None)

    def later(self, fr, n, st):
        pass

    def named(self, n, d):
        return any(isinstance(x, dict) and x["k"] == "DeclRefExpr" and x.get("d") == d for x in walk(n))

    def on_call(self, fr, n, st, name, key, args):
        cs = [c for c in n.get("c") or () if isinstance(c, dict)]
        own = tracker.owner(key)
        if n.get("f") and n["f"] == self.root.key or strip_targs(qcallee(n)) == strip_targs(qcallee({"f": self.root.key})) and fname(n) == fname({"f": self.root.key}):
            return [("val", self.mark(st, ("values",)), None)]
        if own == tracker.LOGGER and name in EMITS:
            lits = [c for c in cs if self.lit and self.named(c, self.lit)]
            wrong = any(x["k"] == "CXXOperatorCallExpr" and x.get("op") == "!" and self.named(x, self.lit) for c in lits for x in walk(c))
            known = any(x["k"] == "CXXOperatorCallExpr" or fname(x) for c in lits for x in walk(c))
            under = bool(self.reason) and any(self.named(c, self.reason) for c in cs)
            keeps = not any(x["k"] == "EnumConst" and x["n"] == "Temporary" for c in cs for x in walk(c))
            return [("val", self.mark(st, ("emit", bool(lits), wrong, under, keeps, fr["f"].at(n))), None)]
        if own == tracker.LOGGER and name == "infer":
            return [("val", self.mark(st, ("infer", bool(cs) and self.named(cs[0], self.lit), any("JustifyUsingRUP" in fr["f"].type(x) for c in cs for x in walk(c) if "t" in x),
                                           any(self.named(c, self.reason) for c in cs), ("steps",) in st.ts, fr["f"].at(n))), None)]
        if name == "emit_explicit_steps":
            return [("val", self.mark(st, ("steps",)), None)]
        if name == "is_literally_true" and cs and self.lit and self.named(cs[0], self.lit):
            return [("val", self.mark(st, ("true", True)), TRUE), ("val", self.mark(st, ("true", False)), FALSE)]
        if strip_targs(qcallee(n)) == "std::holds_alternative" and NONEED in (n.get("f") or "").split("(")[0]:
            return [("val", self.mark(st, ("alt", "why", NONEED)), TRUE), ("val", self.mark(st, ("need",)), FALSE)]
        if name == "visit" and (n["k"] == "CXXMemberCallExpr" and cs or n["k"] == "CallExpr" and len(cs) >= 2):
            sub = cs[0] if n["k"] == "CXXMemberCallExpr" else cs[1]
            T = tracker.alternatives(fr["f"].type(self.peel(sub))) if isinstance(self.peel(sub), dict) and "t" in self.peel(sub) else []
            if any(NONEED in t for t in T):
                r = self.visit(fr, n, st, n.get("obj") if n["k"] == "CXXMemberCallExpr" else cs[0], sub)
                if r is not None:
                    return [x for x in r if not (("need",) in x[1].ts and any(y[0] == "alt" and y[2] == NONEED for y in x[1].ts))]
        return None

    def loop(self, fr, n, states):
        outs = super().loop(fr, n, states)
        if any(x["k"] in CALLS and strip_targs(qcallee(x)) == strip_targs(qcallee({"f": self.root.key})) for x in walk(n, False)):
            self.covers(fr, n)
            return [(k, self.mark(s, ("values",)), v) for k, s, v in outs]
        return outs

    def covers(self, fr, n):
        """A loop over the values of a range deals with all of them."""
        rep, at = self.rep, fr["f"].at(n)
        kind = "every-value-is-logged"
        cond = self.peel(n.get("cond")) if isinstance(n.get("cond"), dict) else None
        if n["k"] != "ForStmt" or cond is None or cond["k"] not in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp") or len(cond.get("c") or ()) != 2:
            rep.undecided(kind, at, self.who, "the loop over the values of a range has a form that is not understood")
            return
        a, b, op = self.peel(cond["c"][0]), self.peel(cond["c"][1]), cond["op"]
        if a["k"] == "MemberExpr":
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if a["k"] != "DeclRefExpr" or b["k"] != "MemberExpr" or op not in ("<", "<=", "!="):
            rep.undecided(kind, at, self.who, "the loop over the values of a range has a form that is not understood")
            return
        init = [x for d in walk(n.get("init")) for x in [d] if x["k"] == "MemberExpr"] if isinstance(n.get("init"), dict) else []
        if not init or not init[0].get("d", "").endswith("::value") or not b.get("d", "").endswith("::upper_value"):
            rep.undecided(kind, at, self.who, "the loop over the values of a range has a form that is not understood")
            return
        rep.check(op == "<=", kind, at, self.who, "the last value of a range is left out when its values are logged one at a time")


def back_ends(prog, rep):
    order = [v["n"] for v in prog.enums[LEVEL]["values"]]
    upto = order[:order.index("Inferences") + 1]
    n = 0
    roots = {}
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if not f.get("body") or f.get("pattern") or f.get("lambda"):
                continue
            q = strip_targs(qcallee({"f": k}) or "")
            if q in ("gcs::innards::ProofLogger::infer", "gcs::innards::infer_explicitly"):
                roots.setdefault((q, f.loc), f)
    rep.floor("functions that write an inference to the proof", len(roots), 2)
    for (q, loc), f in sorted(roots.items(), key=lambda x: x[0]):
        explicit = q.endswith("infer_explicitly")
        who = q.rsplit("::", 1)[-1]
        for L in upto:
            e = Back(prog, L, order, f, rep, who)
            if e.lit is None or e.reason is None:
                rep.undecided("back-end", f.loc, who, "which parameter is the literal and which the reason could not be told")
                continue
            try:
                outs = e.run(f, St({}, frozenset()))
            except TooHard as x:
                rep.undecided("back-end", f.loc, who + "|" + L, str(x))
                continue
            for kind, s, v in outs:
                if kind == "throw" or ("values",) in s.ts:
                    continue
                n += 1
                em = [x for x in s.ts if x[0] == "emit"]
                inf = [x for x in s.ts if x[0] == "infer"]
                excused = ("true", True) in s.ts or any(x[0] == "alt" and x[2] == NONEED for x in s.ts)
                if explicit and L == "Off":
                    rep.check(("steps",) in s.ts, "explicit-steps-are-written", f.loc, who, "an inference can be recorded without the steps its propagator gives for it")
                    rup = s.env.get(next((p["d"] for p in f["params"] if "ThenRUP" in f.type(p["t"])), "?"))
                    if rup == ("c", "Yes"):
                        rep.check(any(x[1] and x[2] and x[3] for x in inf) or any(x[1] for x in em), "inferences-are-written", f.loc, who + "|Off",
                                  "an inference whose propagator asks for it to be written after its own steps can be left out of the proof")
                    for x in inf:
                        rep.check(x[4], "explicit-steps-are-written", x[5], who + "|order", "an inference is written before the steps that justify it")
                    continue
                rep.check(excused or bool(em), "inferences-are-written", f.loc, who + "|" + L, "an inference can be left out of the proof when the assertion level is %s" % L)
                for x in em:
                    rep.check(not x[2], "inferences-are-written", x[5], who + "|other", "what is written to the proof is not the literal inferred")
                    rep.check(x[3], "inferences-are-written", x[5], who + "|reason", "an inference is written to the proof without the reason it depends on")
                    rep.check(x[4], "inferences-are-kept", x[5], who, "an inference is written at a level of the proof that is about to be deleted")
    rep.floor("ways through the functions that write an inference", n, 12)
    steps = [f for d in (prog.fns, prog.insts) for k, f in d.items() if f.get("body") and not f.get("pattern") and not f.get("lambda") and strip_targs(qcallee({"f": k}) or "") == "gcs::innards::emit_explicit_steps"]
    rep.floor("instances of emit_explicit_steps", len(steps), 1)
    for f in steps:
        p = f["params"][1]["d"]
        used = [x for x in walk(f["body"]) if x["k"] in CALLS and any(isinstance(c, dict) and strip(c).get("d") == p for c in (x.get("c") or []) + [x.get("obj")])]
        rep.check(bool(used), "explicit-steps-are-written", f.loc, "emit_explicit_steps", "the steps a propagator gives are not run")


def trackers_made(prog, rep):
    """The tracker that writes nothing is only used when there is nothing to write to."""
    n = 0
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if not f.get("body") or f.get("pattern") or f.get("lambda") or "_test" in f.file or not f.file.startswith("gcs/"):
                continue
            mk = [x for x in walk(f["body"]) if x["k"] == "VarDecl" and plain(f.type(x["t"])) == tracker.TRACKERS[1]] if any(x["k"] == "VarDecl" for x in walk(f["body"])) else []
            mk += [y for x in walk(f["body"]) if x["k"] == "DeclStmt" for y in x.get("decls") or () if isinstance(y, dict) and "t" in y and plain(f.type(y["t"])) == tracker.TRACKERS[1]]
            if not mk:
                continue
            n += 1
            e = Makes(prog, rep, f)
            try:
                e.run(f, St({}, frozenset()))
            except TooHard as x:
                rep.undecided("right-tracker", f.loc, short_fn(f), str(x))
    rep.floor("places where a tracker that writes nothing is made", n, 1)


class Makes(Engine):
    cap = 20000

    def __init__(self, prog, rep, root):
        super().__init__(prog)
        self.rep, self.root = rep, root
        self.loggers = {p["d"] for p in root["params"] if "ProofLogger" in root.type(p["t"]) and root.type(p["t"]).rstrip().rstrip("const").rstrip().endswith("*")}

    # Only tests of the logger matter, which nothing here assigns to.
    def call(self, fr, n, st):
        return [(st, None)]

    def loop(self, fr, n, states):
        return [("fall", s, None) for s in states]

    range_for = loop

    def declare(self, fr, d, st):
        if isinstance(d.get("init"), dict) and strip(d["init"])["k"] == "LambdaExpr":
            return [st]
        if fr["f"] is self.root and "t" in d and plain(fr["f"].type(d["t"])) == tracker.TRACKERS[1]:
            ok = not self.loggers or any(st.env.get(x) == NULL for x in self.loggers)
            self.rep.check(ok, "right-tracker", fr["f"].at(d), short_fn(self.root), "%s can use the tracker that writes nothing although there is a proof to write to" % short_fn(self.root))
        return super().declare(fr, d, st)


RULE = """Every way through a tracker member that lets State change a domain while a proof is being written hands the proof the very literal inferred, with the justification its caller supplied, before it
returns or goes on to another change; a change that empties a domain is written too, and the member then throws or tells its caller.  At each assertion level up to Inferences the functions that receive such a
literal write it, under its reason, at a proof level that is kept, unless it is literally true or its caller said no justification is needed; explicit steps are run first.  The tracker that writes nothing is
only used where there is no logger."""
EXPLANATION = """Path-sensitive typestate over the outcome of every State::infer* call made in the inference trackers, for every instantiation that differs in kind, and partial evaluation of the functions that
write inferences, once per assertion level."""


def run():
    rep = Report("C08", "other", rule=RULE, explanation=EXPLANATION)
    prog = ir.Program(ir.lib_units())
    vals = [v["n"] for v in prog.enums[tracker.INFERENCE]["values"]]
    j = Judge(prog, rep)

    def paths():
        n, roots = tracker.explore(prog, vals, j, lambda f, p: rep.undecided("paths", f.loc, short_fn(f), "could not be followed: " + p))
        rep.floor("tracker members followed", n, 40)
        rep.floor("changes logged", j.logged, 100)
    rep.part("trackers", paths)
    rep.part("back ends", lambda: back_ends(prog, rep))
    rep.part("which tracker", lambda: trackers_made(prog, rep))
    return rep.finish(prog)


if __name__ == "__main__":
    main(run)
