"""C07: the solver claims only what its search established."""
import os
import sys

import ir
from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS
from common import Report, main
from flow import Engine, St, TooHard, NULL, NN, TRUE, FALSE, params_of
from c17 import plain

PROPAGATE = "gcs::innards::Propagators::propagate"
CLAIMS = {"conclude_unsatisfiable", "conclude_optimality", "conclude_complete_enumeration"}
PARTIAL = {"conclude_bounds", "conclude_satisfiable", "conclude_none"}


def is_brancher(t):
    t = plain(t)
    return t.startswith("std::generator<gcs::VariableConditionFrom<") or t.startswith("std::generator<gcs::IntegerVariableCondition")


def objective_known(eng, st):
    """The problem's objective does not come or go: asking for it settles whether there is one."""
    return [("val", s, NN if b else NULL) for s, b in eng.fork(st, "?objective", ())]


def ts_get(s, k, d=None):
    for a, b in s.ts:
        if a == k:
            return b
    return d


def ts_set(s, **kw):
    m = dict(s.ts)
    for k, v in kw.items():
        if v is None:
            m.pop(k, None)
        else:
            m[k] = v
    return s.with_ts(tuple(sorted(m.items(), key=lambda x: x[0])))


def search_functions(prog):
    """Functions that propagate and call themselves: the depth-first searches."""
    res = []
    for f in prog.all_fns():
        if f.file.startswith("gcs/") and not f.file.endswith("_test.cc") and f.get("body"):
            own = {x.get("f") for x in walk(f.get("body")) if x["k"] in CALLS}
            if f.key in own and any(strip_targs(qcallee(x)) == PROPAGATE for x in walk(f.get("body")) if x["k"] in CALLS):
                res.append(f)
    if not res:
        # the propagate call or the recursion may sit in a file-local helper
        byfile = {}
        for f in prog.all_fns():
            if f.file.startswith("gcs/") and f.get("body") and "(anonymous namespace)" in f.key:
                byfile.setdefault(f.file, []).append(f)
        for fs in byfile.values():
            g = {f.key: {x.get("f") for x in walk(f.get("body")) if x["k"] in CALLS} for f in fs}
            for f in fs:
                seen, work = set(), [f.key]
                while work:
                    k = work.pop()
                    for c in g.get(k, ()):
                        if c not in seen:
                            seen.add(c)
                            work.append(c)
                if f.key in seen and any(c and c.startswith(PROPAGATE) for k in seen | {f.key} for c in g.get(k, ())):
                    res.append(f)
    return res


class Search(Engine):
    """Typestate of one search node."""

    def __init__(self, prog, rep, fn, claimed, outs):
        super().__init__(prog)
        self.rep, self.fn, self.claimed, self.outputs = rep, fn, claimed, outs
        self.events = {}
        self.root = fn

    def should_inline(self, rec, n):
        return "(anonymous namespace)" in rec.key and rec.key != self.fn.key

    # ---- events
    def need(self, cond, kind, fr, n, msg):
        sig = "%s|%s" % (self.fn.key.split("(")[1 if self.fn.key.startswith("(") else 0][:60], kind)
        k = (kind, n.get("p"), bool(cond))
        if k in self.events:
            return
        self.events[k] = True
        f = fr["f"]
        self.rep.check(cond, kind, f.at(n), short_fn(self.fn) + "|" + kind, msg, "%s %s" % (f.at(n), kind))

    def at_fixpoint_leaf(self, st):
        """The node is known to be a fully propagated node with nothing left to branch on."""
        fix = ts_get(st, "fix")
        if fix == "maybe":
            p = ts_get(st, "abort")
            v = self.get(st, p) if p else None
            if p is None or v == NULL:
                fix = "yes"
        return fix == "yes", ts_get(st, "node") == "leaf"

    def on_call(self, fr, n, st, name, key, args):
        q = strip_targs(qcallee(n))
        k = n["k"]
        if q == "gcs::Problem::optional_minimise_variable":
            return objective_known(self, st)
        if q == PROPAGATE:
            cs = [c for c in n.get("c") or () if isinstance(c, dict)]
            ab = None
            ps = params_of(key) or []
            none = True
            for i, t in enumerate(ps):
                if "atomic<bool>" in t and i < len(cs):
                    if cs[i]["k"] == "CXXDefaultArgExpr":
                        continue
                    v = args[i]
                    if v == NULL:
                        continue
                    none = False
                    ab = self.place(fr, cs[i], st)
            yes = ts_set(st, fix="yes" if none else "maybe", abort=ab)
            no = ts_set(st, fix="conflict")
            return [("val", yes, TRUE), ("val", no, FALSE)]
        if q.startswith("std::atomic") and name in ("load", "operator bool", "test", "operator __int_type", "test_and_set"):
            f = ts_get(st, "fix")
            if k == "CXXMemberCallExpr" and isinstance(n.get("obj"), dict):
                p = self.place(fr, n["obj"], st)
            seen = ts_set(st, aborted=True)
            not_ = ts_set(st, fix="yes") if f == "maybe" else st
            return [("val", seen, TRUE), ("val", not_, FALSE)]
        if q == "gcs::innards::State::infer":
            outs = []
            for e in self.prog.enums["gcs::innards::Inference"]["values"]:
                s = ts_set(st, fix="conflict") if e["n"] == "Contradiction" else st
                outs.append(("val", s, ("c", e["n"])))
            return outs
        if k == "CXXOperatorCallExpr" and n.get("op") == "()" and is_brancher(fr["f"].type(n)):
            s = ts_set(st, iter="start", node=None)
            return [("val", s, ("s", "branches"))]
        if args is not None and ("s", "branches") in [a for a in args if a]:
            pass
        if name in ("begin", "end") and k == "CXXMemberCallExpr" and isinstance(n.get("obj"), dict) and is_brancher(fr["f"].type(n["obj"])):
            return [("val", st, ("s", "branch-" + name))]
        if key == self.fn.key:
            return self.recursion(fr, n, st, args)
        if q == "std::function::operator()" and k == "CXXOperatorCallExpr":
            c0 = self.peel(n["c"][0])
            if isinstance(c0, dict) and "CurrentState" in fr["f"].type(c0) and plain(fr["f"].type(n)) == "bool":
                if c0["k"] == "MemberExpr" and c0.get("d") == "gcs::SolveCallbacks::solution":
                    self.solution_event(fr, n, st)
                    st = ts_set(st, reported=min(2, ts_get(st, "reported", 0) + 1))
                return [("val", st, TRUE), ("val", ts_set(st, refused=True), FALSE)]
        if q == "gcs::innards::ProofLogger::solution":
            self.solution_event(fr, n, st)
            st = ts_set(st, logged=min(2, ts_get(st, "logged", 0) + 1))
            return [("val", st, None)]
        return None

    def equality(self, fr, n, st, want):
        a, b = n["c"]
        for s, va in self.expr(fr, a, st):
            for s2, vb in self.expr(fr, b, s):
                if ("s", "branch-end") in (va, vb) or any(isinstance(x, dict) and "default_sentinel" in fr["f"].type(self.peel(x) or x) for x in (a, b)):
                    node = ts_get(s2, "node") or "leaf"
                    end = ts_set(s2, iter="end", node=node)
                    more = ts_set(s2, iter="more", node="inner")
                    return [(end, want), (more, not want)]
        return super().equality(fr, n, st, want)

    def range_for(self, fr, n, states):
        if isinstance(n.get("range"), dict) and is_brancher(fr["f"].type(self.peel(n["range"]))):
            outs = []
            for o in super().range_for(fr, n, states):
                outs.append(o)
            res = []
            for kind, s, v in outs:
                if kind == "fall" and ts_get(s, "broke") is None:
                    s = ts_set(s, iter="end", node=ts_get(s, "node") or "leaf")
                res.append((kind, s, v))
            return res
        return super().range_for(fr, n, states)

    def on_iter(self, fr, n, st):
        if isinstance(n.get("range"), dict) and is_brancher(fr["f"].type(self.peel(n["range"]))):
            return [ts_set(st, iter="more", node="inner")]
        return [st]

    def recursion(self, fr, n, st, args):
        rt = plain(self.fn.type(self.fn["ret"])) if "ret" in self.fn else ""
        e = self.prog.enums.get(rt)
        for c, t in zip([c for c in n.get("c") or () if isinstance(c, dict)], params_of(n.get("f")) or []):
            if t.rstrip().endswith("&") and not t.startswith("const "):
                p = self.place(fr, c, st)
                if p is not None and p.startswith("$") and p in self.outputs.values():
                    pass
                if p is not None:
                    st = self.kill(st, p)
        st = ts_set(st, child=True)
        if e is None:
            vals = [None] if rt == "void" else [TRUE, FALSE]
            return [("val", st, v) for v in vals]
        res = []
        for v in e["values"]:
            s = st if v["n"] in self.claimed else ts_set(st, incomplete=True)
            res.append(("val", s, ("c", v["n"])))
        return res

    def solution_event(self, fr, n, st):
        fix, leaf = self.at_fixpoint_leaf(st)
        self.need(fix, "solution-only-after-completed-propagation", fr, n, "a solution is taken from a node whose propagation was not shown to have run to completion")
        self.need(leaf, "solution-only-when-nothing-left-to-branch-on", fr, n, "a solution is taken from a node that may still have something to branch on")
        self.need(not ts_get(st, "aborted"), "no-solution-after-abort", fr, n, "a solution is taken from a node after the abort flag was seen set")

    def on_write(self, fr, n, st, key, val):
        root = self.outputs.get("count")
        if key == root and not n.get("k") == "VarDecl":
            self.solution_event(fr, n, st)
            return ts_set(st, counted=min(2, ts_get(st, "counted", 0) + 1))
        if key == self.outputs.get("objective") and n.get("k") != "VarDecl":
            self.solution_event(fr, n, st)
            rhs = (n.get("c") or [None, None])[-1]
            names = {strip_targs(qcallee(x)) for x in walk(rhs) if x["k"] in CALLS} if isinstance(rhs, dict) else set()
            loose = [q for q in names if q.startswith("gcs::innards::State::") and q.rsplit("::", 1)[1] in ("lower_bound", "upper_bound", "bounds")]
            self.need(not loose, "incumbent-is-the-objective's-value", fr, n, "the incumbent is taken from a bound of the objective, which need not be its value")
            return ts_set(st, improved=True)
        if key == self.outputs.get("found") and n.get("k") != "VarDecl" and val != FALSE:
            if not ts_get(st, "child"):
                self.solution_event(fr, n, st)
            return ts_set(st, flagged=True)
        return st

    def finish(self, fr, outs):
        rt = plain(self.fn.type(self.fn["ret"])) if "ret" in self.fn else ""
        done = 0
        bad = {}
        for kind, s, v in outs:
            if kind != "return":
                continue
            done += 1
            claims = v is None or v[0] != "c" or v[1] in self.claimed
            if rt in ("void",):
                claims = True
            if not claims:
                continue
            why = None
            fix = ts_get(s, "fix")
            if ts_get(s, "aborted"):
                why = "the abort flag was seen set"
            elif ts_get(s, "refused"):
                why = "a callback asked for the search to stop"
            elif fix == "conflict":
                pass
            elif ts_get(s, "incomplete"):
                why = "a child's subtree was not fully explored"
            elif fix is None:
                why = "the node was not propagated"
            elif ts_get(s, "node") == "leaf":
                f2, _ = self.at_fixpoint_leaf(s)
                if not f2:
                    why = "the node's propagation may have been interrupted"
                elif self.outputs and ts_get(s, "counted", 0) != 1:
                    why = "a solution was found and counted %d time(s)" % ts_get(s, "counted", 0)
                elif self.outputs and not ts_get(s, "improved") and Outer.is_minimise(self, s) is not False:
                    why = "a solution was found without recording its objective value"
                elif self.outputs and not ts_get(s, "flagged"):
                    why = "a solution was found and not recorded as found"
            elif ts_get(s, "iter") != "end":
                why = "not every alternative of the branching was explored"
            if why:
                bad[why] = s
        f = self.fn
        if not bad:
            self.rep.ok("exhaustion-claimed-only-when-exhausted", "%s: %d return states" % (short_fn(f), done))
        for why in bad:
            self.rep.bad("exhaustion-claimed-only-when-exhausted", f.loc, short_fn(f) + "|" + why.split(" (")[0],
                         "the subtree can be reported as completely explored although %s" % why)
        return done


def short_fn(f):
    return strip_targs(f.key).split("(gcs")[0].split("(unsigned")[0].replace("(anonymous namespace)::", "").split("@")[0].split("(")[0]


class Outer(Engine):
    """Typestate of the function that runs the search and makes the claims."""

    def __init__(self, prog, rep, search):
        super().__init__(prog)
        self.rep, self.search = rep, search
        self.claims = []
        self.roles = {}
        self.enum = prog.enums.get(plain(search.type(search["ret"])))

    def should_inline(self, rec, n):
        return "(anonymous namespace)" in rec.key and rec.key != self.search.key

    def on_call(self, fr, n, st, name, key, args):
        q = strip_targs(qcallee(n))
        if key == self.search.key:
            cs = [c for c in n.get("c") or () if isinstance(c, dict)]
            for c, p in zip(cs, self.search["params"]):
                t = self.search.type(p["t"])
                if t.rstrip().endswith("&") and not t.startswith("const "):
                    pl = self.place(fr, c, st)
                    if pl is not None:
                        self.roles.setdefault(pl, p["d"])
                        st = self.kill(st, pl)
            return [("val", ts_set(st, result=v["n"]), ("c", v["n"])) for v in self.enum["values"]]
        if q == "gcs::Problem::optional_minimise_variable":
            return objective_known(self, st)
        if q in ("gcs::innards::Propagators::initialise", "gcs::Presolver::run"):
            return [("val", st, TRUE), ("val", ts_set(st, infeasible=True), FALSE)]
        if name in CLAIMS | PARTIAL and "ProofLogger" in q:
            return [("val", self.claim(fr, n, st, name, args), None)]
        if q == "std::function::operator()" and n["k"] == "CXXOperatorCallExpr":
            c0 = self.peel(n["c"][0])
            if isinstance(c0, dict) and c0["k"] == "MemberExpr" and c0.get("d") == "gcs::SolveCallbacks::completed":
                return [("val", self.claim(fr, n, st, "completed", args), None)]
        return None

    def claim(self, fr, n, st, name, args):
        cs = [c for c in n.get("c") or () if isinstance(c, dict)]
        self.claims.append((name, fr["f"], n, st, args, [self.deep_place(fr, c, st) for c in cs]))
        k = "completed" if name == "completed" else "concluded"
        st = ts_set(st, **{k: min(2, ts_get(st, k, 0) + 1)})
        return st

    def deep_place(self, fr, c, st):
        p = self.place(fr, c, st)
        if p is None:
            for x in walk(c):
                p = self.place(fr, x, st)
                if p:
                    break
        return p

    def is_minimise(self, st):
        """What is known about there being an objective."""
        v = st.env.get("?objective")
        return None if v is None else v[1]


def run():
    prog = ir.Program(ir.lib_units())
    rep = Report("C07", rule="Every path through the search node function and the function that concludes a solve is explored over a finite typestate: "
                 "exhaustion is claimed only on paths where the subtree was exhausted, a solution is recorded only at a completely propagated leaf, and each "
                 "conclusion is made only under the facts that entail it.",
                 explanation="Path-sensitive typestate analysis of the depth-first search and of solve_with: propagation outcome, abort flag, callback answers, "
                 "branch iteration and child results are tracked; conclusions and completion callbacks are the obligations.")
    top = prog.fns.get(next((k for k in prog.fns if k.startswith("gcs::solve_with(")), None))
    if not top:
        raise ir.Broken("gcs::solve_with not found")
    searches = search_functions(prog)
    reach = callees(prog, top)
    main_search = [f for f in searches if f.key in reach]
    if len(main_search) != 1:
        raise ir.Broken("the search called by solve_with was not identified (%d candidates)" % len(main_search))
    search = main_search[0]
    outer = Outer(prog, rep, search)
    claimed = outputs = None
    try:
        outs = outer.run(top, St())
        claimed, outputs = conclusions(prog, rep, outer, top, search, outs)
    except TooHard as e:
        rep.undecided("conclusions", top.loc, "solve_with", str(e))
    if claimed is not None:
        eng = Search(prog, rep, search, claimed, outputs)
        try:
            fr = dict(f=search)
            outs = eng.run(search, St())
            n = eng.finish(fr, outs)
            rep.extra["search_return_states"] = n
            rep.floor("return states of the search node", n, 4)
            kinds = {k[0] for k in eng.events}
            rep.floor("kinds of solution obligation met", len(kinds), 3)
        except TooHard as e:
            rep.undecided("search", search.loc, short_fn(search), str(e))
    for f in searches:
        if f is search:
            continue
        eng = Search(prog, rep, f, set(), {})
        try:
            outs = eng.run(f, St())
            eng.finish(dict(f=f), outs)
        except TooHard as e:
            rep.undecided("search", f.loc, short_fn(f), str(e))
    rep.extra["search_functions"] = [f.key[:120] for f in searches]
    fronts(prog, rep)
    return rep.finish(prog)


def callees(prog, f):
    seen, work = {f.key}, [f]
    while work:
        g = work.pop()
        for x in walk(g.get("body")):
            if x["k"] in CALLS and x.get("f") and x["f"] not in seen:
                seen.add(x["f"])
                h = prog.fn(x["f"])
                if h and h.get("body") and "(anonymous namespace)" in h.key:
                    work.append(h)
    return seen


def conclusions(prog, rep, outer, top, search, outs):
    enum = [v["n"] for v in outer.enum["values"]]
    # which results of the search are treated as exhaustion
    claimed = set()
    strong = [c for c in outer.claims if c[0] in CLAIMS or c[0] == "completed"]
    weak = [c for c in outer.claims if c[0] in PARTIAL]
    rep.floor("conclusion states", len(outer.claims), 6)
    for name, f, n, st, args, places in strong:
        r = ts_get(st, "result")
        if ts_get(st, "infeasible"):
            continue
        if r is None:
            rep.bad("claim-follows-a-search", f.at(n), "solve_with|%s" % name, "%s is claimed on a path where no search was run and nothing was found infeasible" % name)
        else:
            claimed.add(r)
    # roles of the search's outputs
    roles = {}
    for name, f, n, st, args, places in outer.claims:
        if name == "conclude_complete_enumeration" and places and places[0]:
            roles["count"] = places[0]
        if name == "conclude_optimality" and len(places) > 1 and places[1]:
            roles["objective"] = places[1].split(".")[0]
    bools = [p for p, d in outer.roles.items() if any(q["d"] == d and plain(search.type(q["t"])).replace(" &", "") == "bool" for q in search["params"])]
    if len(bools) == 1:
        roles["found"] = bools[0]
    for r in ("count", "objective", "found"):
        if r not in roles or roles[r] not in outer.roles:
            raise TooHard("the search's output for '%s' was not identified" % r)
    done = set()

    def once(ok, kind, f, n, name, msg):
        key = (kind, name, n.get("p"), bool(ok))
        if key not in done:
            done.add(key)
            rep.check(ok, kind, f.at(n), "solve_with|%s|%s" % (name, kind), msg, "%s %s" % (f.at(n), name))

    for name, f, n, st, args, places in outer.claims:
        obj = outer.get(st, roles["objective"])
        found = outer.get(st, roles["found"])
        r = ts_get(st, "result")
        mini = outer.is_minimise(st)
        searched = r is not None and not ts_get(st, "infeasible")
        if name == "conclude_optimality":
            once(obj is not None and obj != NULL and outer.truth(obj) is True, "optimum-needs-an-incumbent", f, n, name, "optimality is concluded where no incumbent is known to exist")
            once(not ts_get(st, "infeasible"), "optimum-needs-a-search", f, n, name, "optimality is concluded for a problem found infeasible")
        elif name == "conclude_bounds":
            once(outer.truth(obj) is True, "bounds-need-an-incumbent", f, n, name, "bounds are concluded where no incumbent is known to exist")
        elif name == "conclude_unsatisfiable" and searched:
            if mini is not False and outer.truth(obj) is not False and mini is True:
                once(False, "unsatisfiable-needs-no-solution", f, n, name, "unsatisfiability is concluded where an incumbent may exist")
            elif mini is not True:
                once(outer.truth(found) is False, "unsatisfiable-needs-no-solution", f, n, name, "unsatisfiability is concluded where a solution may have been found")
            else:
                once(True, "unsatisfiable-needs-no-solution", f, n, name, "")
        elif name == "conclude_complete_enumeration":
            once(outer.truth(found) is True and mini is not True, "enumeration-needs-solutions", f, n, name, "a complete enumeration is concluded where no solution may have been found, or for an optimisation")
        elif name == "conclude_satisfiable":
            once(outer.truth(found) is True, "satisfiable-needs-a-solution", f, n, name, "satisfiability is concluded where no solution may have been found")
    n_ret = 0
    for kind, s, v in outs:
        if kind != "return":
            continue
        n_ret += 1
        r = ts_get(s, "result")
        exhausted = ts_get(s, "infeasible") or r in claimed
        c = ts_get(s, "concluded", 0)
        if c > 1:
            rep.bad("one-conclusion", top.loc, "solve_with|more than one conclusion", "a proof can be given more than one conclusion")
        if ts_get(s, "completed", 0) > 1:
            rep.bad("one-conclusion", top.loc, "solve_with|completed twice", "completion can be reported more than once")
    rep.ok("one-conclusion", "%d return states" % n_ret)
    rep.floor("return states of solve_with", n_ret, 4)
    rest = [e for e in enum if e not in claimed]
    rep.extra["results_meaning_exhausted"] = sorted(claimed)
    if claimed and rest:
        rep.ok("claims-separate-outcomes", "exhausted: %s; not: %s" % (sorted(claimed), rest))
    elif not claimed:
        raise TooHard("no search result leads to a claim of exhaustion")
    else:
        rep.bad("claims-separate-outcomes", top.loc, "solve_with|every result claims exhaustion", "every result of the search, including an interrupted one, leads to a claim of exhaustion")
    return claimed, {k: outer.roles[v] for k, v in roles.items()}


class Verdict(Engine):
    """What the FlatZinc front end prints about the outcome, against the flags its callbacks set."""

    def __init__(self, prog, completed, found):
        super().__init__(prog)
        self.completed, self.found = completed, found
        self.events = []

    def on_call(self, fr, n, st, name, key, args):
        if not name or not name.startswith(("print", "operator<<")) and name != "format":
            return None
        for x in walk(n):
            if x["k"] == "StringLiteral" and isinstance(x.get("v"), str) and "=====" in x["v"]:
                self.events.append((x["v"].strip(), fr["f"], n, st))
        return None


def fronts(prog, rep):
    """A callback that only ever sets a flag makes that flag mean 'completed'; printed verdicts are tested against it."""
    units = [u for u in ("minizinc/fzn_glasgow.cc",) if os.path.exists(os.path.join(ir.REPO, u))]
    if not units:
        return
    p2 = ir.Program(units, headers=False)
    n_events = 0
    for f in p2.all_fns():
        if not f.get("body") or f.get("lambda") or f.key.startswith("lambda@"):
            continue
        for blk in walk(f.get("body"), False):
            if blk["k"] != "CompoundStmt":
                continue
            ss = [c for c in blk.get("c") or () if isinstance(c, dict)]
            for i, s in enumerate(ss):
                if s["k"] in ("CompoundStmt", "IfStmt", "CXXTryStmt", "ForStmt", "WhileStmt"):
                    continue
                calls = [x for x in walk(s, False) if x["k"] in CALLS and (x.get("f") or "").startswith("gcs::solve_with(")]
                if not calls:
                    continue
                flags = callback_flags(p2, f, calls[0])
                if not flags:
                    continue
                eng = Verdict(p2, flags.get("completed"), flags.get("solution"))
                fr = dict(f=f, this="this", out=[])
                try:
                    eng.seq(fr, ss[i + 1:], [St()])
                except TooHard as e:
                    rep.undecided("printed-verdict", f.loc, "front end", str(e))
                    continue
                for text, g, n, st in eng.events:
                    n_events += 1
                    c = eng.truth(eng.get(st, flags["completed"])) if "completed" in flags else None
                    a = eng.truth(eng.get(st, flags["solution"])) if "solution" in flags else None
                    if "UNSAT" in text:
                        ok, why = c is True and a is False, "unsatisfiability is printed without the search having completed with no solution"
                    elif "UNKNOWN" in text:
                        ok, why = a is False, "an unknown result is printed although a solution may have been printed"
                    elif text == "==========":
                        ok, why = c is True and a is True, "completeness is printed without the search having completed with a solution"
                    else:
                        continue
                    rep.check(ok, "printed-verdict", g.at(n), "front end|%s" % text, why)
    rep.floor("printed verdicts", n_events, 1)


def callback_flags(prog, f, call):
    res = {}
    for x in walk(call):
        if x["k"] == "InitListExpr" and "t" in x and plain(f.type(x)) == "gcs::SolveCallbacks":
            names = [m if isinstance(m, str) else (m or {}).get("n") for m in x.get("fields") or ()]
            for name, c in zip(names, [c for c in x.get("c") or ()]):
                if not isinstance(c, dict):
                    continue
                lam = next((y for y in walk(c) if y["k"] == "LambdaExpr"), None)
                if lam is None or name not in ("completed", "solution"):
                    continue
                sets = [y for y in walk(lam.get("body"), False) if y["k"] == "BinaryOperator" and y.get("op") == "=" and y["c"][0].get("k") == "DeclRefExpr"
                        and strip(y["c"][1]).get("k") == "CXXBoolLiteralExpr"]
                if len(sets) == 1:
                    d = sets[0]["c"][0]["d"]
                    writes = [y for y in walk(f.get("body")) if y["k"] == "BinaryOperator" and y.get("op") == "=" and y["c"][0].get("k") == "DeclRefExpr" and y["c"][0].get("d") == d]
                    if len(writes) == 1:
                        res[name] = d
    return res


if __name__ == "__main__":
    main(run)
