"""C20: propagators change domains only through tracked inference."""
import os
import re

import ir
from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS, root_of
from common import Report, main
from flow import params_of, writes_through
from c17 import plain
from c07 import short_fn
import props
import c03
from c03 import STATE, TRACKER, LAYER_RE, brancher

PROPS = "gcs::innards::Propagators"
CURRENT = "gcs::CurrentState"
WATCH = "gcs::innards::RefinedWatchContext"
LEVELS = {"guess", "new_epoch", "backtrack", "on_backtrack"}
SETUP = {"allocate_integer_variable_with_state", "add_constraint_state", "create_variable_with_state_but_separate_proof_definition"}
QUEUE = {"install", "install_initialiser", "install_initial_contradiction", "disable_propagators_for_constraints", "trigger_on_change", "trigger_on_bounds", "trigger_on_instantiated",
         "define_bound", "increase_degree", "initialise", "propagate"}
INSTALLS = (PROPS + "::install", PROPS + "::install_initialiser")
READS = ("begin", "end", "data", "get", "find", "at", "back", "front", "size", "empty", "contains", "value", "operator->", "operator*", "operator[]", "operator bool", "has_value")


def ours(f):
    return f.get("body") and not f.get("pattern") and not f.file.endswith(("_test.cc", "_tests.cc")) and "/test" not in f.file and f.file.startswith(("gcs/", "minizinc/", "xcsp/", "scp/"))


def base(k):
    """A lambda's key without its instance."""
    return re.split(r"[#!]<", k)[0]


def mutates_domains(n):
    """The name of the State member a call makes, if it changes domains or the search levels."""
    if n["k"] != "CXXMemberCallExpr" or n.get("const") or not n.get("f"):
        return None
    own, _, name = strip_targs(qcallee(n)).rpartition("::")
    if own != STATE:
        return None
    return name if name in LEVELS or name.startswith(("infer", "change_state_for")) else None


def mutates_engine(n):
    if n["k"] != "CXXMemberCallExpr" or not n.get("f"):
        return None
    own, _, name = strip_targs(qcallee(n)).rpartition("::")
    if own == PROPS and name in QUEUE and not name == "define_bound":
        return "Propagators::" + name
    if own == STATE and name in SETUP:
        return name
    return None


class Units:
    """Functions and lambda expressions, what calls what, and what encloses what."""

    def __init__(self, prog):
        self.prog = prog
        self.index = props.Index(prog)
        self.rec, self.calls, self.callers, self.encl, self.dom, self.eng, self.installed = {}, {}, {}, {}, {}, {}, {}
        self.inner = {}
        for d in (prog.fns, prog.insts):
            for k, f in d.items():
                if not ours(f):
                    continue
                u = k
                self.rec[u] = f
                out = self.calls.setdefault(u, {})
                for x in walk(f["body"], False):
                    if x["k"] == "LambdaExpr" and x.get("f"):
                        b = base(x["f"])
                        self.encl.setdefault(b, set()).add(u)
                        self.inner.setdefault(u, set()).add(b)
                    if x["k"] in CALLS and x.get("f"):
                        out.setdefault(x["f"], x)
                        m = mutates_domains(x)
                        if m:
                            self.dom.setdefault(u, []).append((m, x))
                        m = mutates_engine(x)
                        if m:
                            self.eng.setdefault(u, []).append((m, x))
        for u, cs in self.calls.items():
            for c in cs:
                self.callers.setdefault(c, set()).add(u)
        for f, x, l in props.installs(prog, INSTALLS):
            if ours(f) and l is not None and l.get("f"):
                self.installed.setdefault(base(l["f"]), (f, x))

    def lambda_units(self, b):
        r = [u.key for u in self.index.bodies(b)]
        return [k for k in r if k in self.rec]

    def cls(self, u):
        c = strip_targs(self.rec[u].get("cls") or "")
        if c and not u.startswith("lambda@"):
            return c
        return None

    def around(self, u):
        """The units a lambda is written in."""
        return self.encl.get(base(u), set()) if u.startswith("lambda@") else set()


def takes_state(f):
    return any(re.match(r"(gcs::innards::)?State &$", plain_ref(f.type(p["t"]))) for p in f["params"])


def plain_ref(t):
    return t.replace("gcs::innards::State", "State").strip()


class Ownership:
    def __init__(self, un, rep):
        self.un, self.rep = un, rep
        self.memo = {}
        self.searches = {u for u in un.rec if self.search(u)}

    def search(self, u):
        un = self.un
        if un.cls(u) == PROPS:
            return False
        return takes_state(un.rec[u]) and any(strip_targs(c.split("(")[0]) == PROPS + "::propagate" for c in un.calls[u]) and base(u) not in un.installed

    def allowed(self, u, what, seen=()):
        """True, False, or None when nothing tells."""
        un = self.un
        if u in seen:
            return True
        c = un.cls(u)
        if c == STATE:
            return True
        if c in TRACKER:
            return what.startswith("infer")
        if c == PROPS:
            return what == "on_backtrack"
        if base(u) in un.installed:
            return False
        if u in self.searches:
            return True
        if any(callee in self.searches for callee in un.calls[u]) and takes_state(un.rec[u]):
            return True
        over = un.rec[u].get("overrides")
        if over:
            return False
        if c and (LAYER_RE.match(c)):
            return False
        around = un.around(u)
        if around:
            if takes_state(un.rec[u]) and not any(takes_state(un.rec[a]) or self.allowed(a, what, seen + (u,)) for a in around):
                return False  # a callback that is handed the state
            return self.all([self.allowed(a, what, seen + (u,)) for a in around])
        callers = [a for a in un.callers.get(u, ()) if a != u]
        if not callers:
            return None
        return self.all([self.allowed(a, what, seen + (u,)) for a in callers])

    @staticmethod
    def all(xs):
        if any(x is False for x in xs):
            return False
        return None if any(x is None for x in xs) else True

    def run(self):
        un, rep = self.un, self.rep
        for u, ms in sorted(un.dom.items()):
            f = un.rec[u]
            for m, x in ms:
                a = self.allowed(u, m)
                if a is None:
                    rep.undecided("domains-changed-by", f.at(x), "%s|%s" % (props.context(f), m), "nothing calls the function that does '%s' here, so what it is for could not be told" % m)
                else:
                    rep.check(a, "domains-changed-by", f.at(x), "%s|%s" % (props.context(f), m),
                              "'%s' is called on the state directly here, by code that is neither the state itself, an inference tracker, nor a search: the change is not tracked" % m)
        rep.floor("places that change domains or levels", sum(len(x) for x in un.dom.values()), 60)
        rep.floor("search functions", len(self.searches), 1)


class Entered:
    """What the engine calls while it searches must not reach back into the state or the queue."""

    def __init__(self, un, rep):
        self.un, self.rep = un, rep
        self.roots = {}
        for b, (f, x) in un.installed.items():
            for u in un.lambda_units(b):
                self.roots[u] = "a propagator" if strip_targs(qcallee(x)) == INSTALLS[0] else "an initialiser"
        for u, f in un.rec.items():
            if any(o.startswith("gcs::innards::ConflictObserver::") for o in f.get("overrides") or ()):
                self.roots[u] = "an observer of conflicts"
            elif brancher(f):
                self.roots[u] = "a branching rule"
            elif LAYER_RE.match(f.get("cls") or ""):
                self.roots[u] = "the proof layer"
            elif u.startswith("lambda@") and f["params"]:
                ts = [f.type(p["t"]) for p in f["params"]]
                if any("ReasonLiterals" in t for t in ts):
                    self.roots[u] = "a justification"
                elif any(re.match(r"const (gcs::)?CurrentState &", t) for t in ts):
                    self.roots[u] = "a branching rule or callback"

    def run(self):
        un, rep = self.un, self.rep
        for u, what in sorted(self.roots.items()):
            seen, todo = {u: None}, [u]
            found = None
            while todo and not found:
                k = todo.pop()
                c = un.cls(k)
                if c in TRACKER or c == WATCH:
                    continue
                hit = (un.dom.get(k) or [e for e in un.eng.get(k) or () if what != "an initialiser" or e[0] not in SETUP]) if c not in (STATE, PROPS) else None
                if hit:
                    found = (k, hit[0])
                    break
                nxt = list(un.calls.get(k, ()))
                for b in un.inner.get(k, ()):
                    if b not in un.installed:
                        nxt += un.lambda_units(b)
                for n in nxt:
                    if n in un.rec and n not in seen:
                        oc = un.cls(n)
                        if oc in (STATE, PROPS):
                            continue
                        seen[n] = k
                        todo.append(n)
            f = un.rec[u]
            if found:
                k, (m, x) = found
                path, p = [], k
                while p is not None:
                    path.append(props.context(un.rec[p]))
                    p = seen[p]
                rep.bad("reaches-back", un.rec[k].at(x), "%s|%s" % (props.context(un.rec[k]), m),
                        "'%s' is reached from %s (%s), which may only change things through the inference it is handed: %s" % (m, what, f.loc, " <- ".join(path[:5])))
            else:
                rep.ok("reaches-back", "%s: %s" % (f.loc, what))
        rep.floor("pieces of code the engine calls while it searches", len(self.roots), 300)
        rep.floor("propagators and initialisers", len(un.installed), 70)


# ---------------------------------------------------------------- const means const
class Honest:
    """A const member of the state does not change what it can reach through its pointers."""

    def __init__(self, prog, un, rep):
        self.prog, self.un, self.rep = prog, un, rep

    def rooted(self, n, alias):
        r, parts = root_of(n)
        while isinstance(r, dict) and r["k"] == "CXXMemberCallExpr" and isinstance(r.get("obj"), dict) and fname(r) in READS:
            r, p = root_of(r["obj"])
            parts = p + parts
        if not isinstance(r, dict):
            return False
        if r["k"] == "CXXThisExpr":
            return True
        return r["k"] == "DeclRefExpr" and r.get("d") in alias

    def pointee(self, n, alias):
        """Reached through an owned pointer of this."""
        return self.rooted(n, alias)

    def find(self, f):
        alias = set()
        out = []
        for i in range(3):
            size = len(alias)
            for x in walk(f["body"]):
                if x["k"] == "VarDecl" and isinstance(x.get("init"), dict) and "t" in x and x.get("d"):
                    t = f.type(x).strip()
                    if (t.endswith("&") or t.endswith("*")) and not t.startswith("const ") and self.rooted(x["init"], alias):
                        alias.add(x["d"])
                if x["k"] == "CXXForRangeStmt" and isinstance(x.get("var"), dict) and "t" in x["var"] and isinstance(x.get("range"), dict):
                    t = f.type(x["var"]).strip()
                    if t.endswith("&") and not t.startswith("const ") and self.rooted(x["range"], alias) and x["var"].get("d"):
                        alias.add(x["var"]["d"])
            if len(alias) == size:
                break
        for x in walk(f["body"]):
            k, op = x["k"], x.get("op")
            t = None
            if k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and op in props.ASSIGN or k in ("UnaryOperator", "CXXOperatorCallExpr") and op in ("++", "--"):
                t = x["c"][0]
            elif k == "CXXMemberCallExpr" and not x.get("const") and isinstance(x.get("obj"), dict) and fname(x) not in READS:
                q = strip_targs(qcallee(x))
                if not q.startswith(("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__uniq")):
                    t = x["obj"]
            elif k in CALLS and x.get("f") and strip_targs(qcallee(x)) in ("std::move", "std::exchange", "std::swap", "std::ranges::swap"):
                t = next((a for a in x.get("c") or () if isinstance(a, dict) and self.rooted(a, alias) and "const" not in f.type(strip(a)).split("<")[0]), None)
            if isinstance(t, dict) and self.rooted(t, alias):
                out.append((x, "changed"))
            if k in CALLS and x.get("f") and k != "CXXOperatorCallExpr":
                ps = params_of(x["f"]) or []
                for a, p in zip(x.get("c") or (), ps):
                    if isinstance(a, dict) and p.rstrip().endswith("&") and writes_through(p) and "&&" not in p and self.rooted(a, alias):
                        bs = self.un.index.bodies(x["f"])
                        i = (x.get("c") or []).index(a)
                        if any(i < len(b["params"]) and b["params"][i].get("d") and self.mut.of(b, b["params"][i]["d"]) for b in bs):
                            out.append((x, "handed over to be changed"))
        return out

    def run(self):
        self.mut = props.Mutation(self.prog, self.un.index)
        n = 0
        for u, f in sorted(self.un.rec.items()):
            c = self.un.cls(u)
            if c not in (STATE, CURRENT) or not f.get("const"):
                continue
            n += 1
            hits = self.find(f)
            for x, how in hits:
                self.rep.bad("const-is-const", f.at(x), "%s" % short_fn(f), "a const member function, which anything that may only look at the state can call, has something of the state %s here" % how)
            if not hits:
                self.rep.ok("const-is-const", short_fn(f))
            rt = plain_like(f)
            if rt and rt.endswith(("&", "*")) and not rt.startswith("const ") and not re.match(r"(std::any|gcs::innards::ConstraintState) &$", rt):
                self.rep.bad("const-is-const", f.loc, "%s|returns" % short_fn(f), "a const member function hands out '%s', through which the state can be changed" % rt)
        self.rep.floor("const member functions of the state", n, 20)


def plain_like(f):
    return f.type(f["ret"]).strip() if "ret" in f else ""


def hands_out(prog, un, rep):
    """Nothing that engine-called code is given yields a state or engine it can change."""
    n = 0
    for c, rec in prog.classes.items():
        if strip_targs(c) not in TRACKER + (CURRENT, WATCH):
            continue
        for m in rec.get("methods") or ():
            pass
    for u, f in un.rec.items():
        c = un.cls(u)
        if c not in TRACKER + (CURRENT, WATCH, STATE) or "ret" not in f:
            continue
        n += 1
        rt = plain_like(f)
        bad = re.match(r"(gcs::innards::)?(State|Propagators)( ?[&*])+$", rt)
        if bad and c == STATE and not f.get("const"):
            continue
        rep.check(not bad, "hands-out", f.loc, short_fn(f), "'%s' is handed out to code that may only look at it" % rt)
    rep.floor("members of what propagators and heuristics are given", n, 60)


CASTS = ("CXXConstCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr")


def casts(prog, un, rep):
    n = 0
    for u, f in un.rec.items():
        for x in walk(f["body"], False):
            if x["k"] in CASTS and "cast" in x:
                n += 1
                t = f.type(x["cast"]) if not isinstance(x["cast"], str) else x["cast"]
                t = t.strip()
                if t.endswith(("&", "*")) and not t.startswith("const ") and re.search(r"\b(State|Propagators|InferenceTrackerBase|SimpleInferenceTracker|EagerProofLoggingInferenceTracker|Imp|IntervalSet<[^>]*>)\b ?[&*]", t):
                    s = strip(x["c"][0])
                    st = f.type(s) if isinstance(s, dict) and "t" in s else ""
                    if "const" in st or x["k"] in ("CXXConstCastExpr", "CXXReinterpretCastExpr"):
                        rep.bad("casts", f.at(x), props.context(f), "a cast to '%s' here makes something that may only be looked at changeable" % t)
                        continue
    rep.ok("casts", "%d casts looked at" % n)
    rep.floor("casts looked at", n, 500)


RULE = """(1) Every call to a member of State that changes domains or search levels is made by State, by an inference tracker (inferences only), by the engine's propagation loop (undo actions only), by a
search function (one that is given the state to change and runs propagation), or by a helper only such code calls.  (2) From every propagator, initialiser, conflict observer, branching rule, callback,
justification and proof-writing function, no path in the call graph reaches a change to the state, or to the engine's propagators, triggers and queue, other than through the tracker or the watch context it is
handed.  (3) A const member of State or CurrentState changes nothing it reaches through its pointers and hands out nothing changeable but constraint data.  (4) Trackers, watch contexts and CurrentState hand
out no changeable state or engine.  (5) No cast makes a const state, engine, tracker or interval set changeable."""
EXPLANATION = """Ownership and call-graph reachability analysis over the type-checked program, with an escape-and-mutation analysis of const member functions that looks through owned pointers."""


def run():
    rep = Report("C20", "other", rule=RULE, explanation=EXPLANATION)
    prog = ir.Program(ir.lib_units())
    un = Units(prog)
    rep.part("ownership", lambda: Ownership(un, rep).run())
    rep.part("entered", lambda: Entered(un, rep).run())
    rep.part("const", lambda: Honest(prog, un, rep).run())
    rep.part("hands-out", hands_out, prog, un, rep)
    rep.part("casts", casts, prog, un, rep)
    return rep.finish(prog)


if __name__ == "__main__":
    main(run)
