"""Follows what the inference trackers do with the outcome of a change to a domain."""
import re

from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS
from flow import Engine, St, TooHard, dedup, NN, NULL, TRUE, FALSE
from c17 import plain, split_args
from c07 import short_fn

STATE = "gcs::innards::State"
TRACKERS = ("gcs::innards::InferenceTrackerBase", "gcs::innards::SimpleInferenceTracker", "gcs::innards::EagerProofLoggingInferenceTracker")
INFERENCE = "gcs::innards::Inference"
FAILED = "gcs::innards::TrackedPropagationFailed"
LOGGER = "gcs::innards::ProofLogger"
OPS = {"infer_equal": "==", "infer_not_equal": "!=", "infer_less_than": "<", "infer_greater_than_or_equal": ">=", "infer_not_in_range": "out"}


def owner(key):
    return strip_targs((key or "").split("(")[0]).rpartition("::")[0]


def is_state_infer(n):
    return n["k"] == "CXXMemberCallExpr" and owner(n.get("f")) == STATE and (fname(n) or "").startswith("infer")


def alternatives(t):
    """The alternatives of a variant type."""
    t = plain(t)
    if t.startswith("std::variant<"):
        return split_args(t[len("std::variant<"):-1])
    return [t]


class Tracker(Engine):
    max_depth = 14
    cap = 4000

    def __init__(self, prog, methods, outcomes, useful, judge):
        super().__init__(prog)
        self.methods, self.outcomes, self.useful, self.judge = methods, outcomes, useful, judge

    def should_inline(self, rec, n):
        return rec.key in self.useful

    # ---- terms
    def sym(self, fr, n, s, v=None):
        if v is not None and v[0] == "lit":
            return v
        n = self.peel(n)
        if not isinstance(n, dict):
            return None
        p = self.place(fr, n, s)
        if p is not None:
            w = self.get(s, p)
            return w if w is not None and w[0] in ("lit", "just") else ("at", p)
        t = self.term(fr, n, s)
        if t is not None:
            return t
        cs = [c for c in n.get("c") or () if isinstance(c, dict) and c["k"] != "CXXDefaultArgExpr"]
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "InitListExpr", "CXXMemberCallExpr") and len(cs) == 1:
            return self.sym(fr, cs[0], s)
        return None

    def term(self, fr, n, s):
        k, cs = n["k"], n.get("c") or []
        if k == "CXXOperatorCallExpr" and n.get("op") in ("==", "!=", "<", ">=", ">", "<=") and len(cs) == 2 and "Condition" in fr["f"].type(n):
            a, b = self.sym(fr, cs[0], s), self.sym(fr, cs[1], s)
            return ("lit", n["op"], a, b) if a and b else ("lit", "?", None, None)
        if k == "CallExpr" and fname(n) == "not_in_range" and len(cs) == 3:
            return ("lit", "out") + tuple(self.sym(fr, c, s) for c in cs)
        t = plain(fr["f"].type(n)) if "t" in n else ""
        if t in ("gcs::innards::FalseLiteral", "gcs::innards::TrueLiteral") and not any(isinstance(c, dict) for c in cs):
            return ("lit", t.rsplit("::", 1)[1])
        if re.match(r"gcs::innards::(JustifyUsingRUP(<.*>)?|NoJustificationNeeded|AssertRatherThanJustifying)$", t) and not [c for c in cs if isinstance(c, dict) and c["k"] not in ("CXXDefaultArgExpr", "CXXDefaultInitExpr")] and \
                k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr"):
            return ("just", strip_targs(t).rsplit("::", 1)[1])
        return None

    def on_other(self, fr, n, st):
        if n["k"] in ("CXXOperatorCallExpr", "CallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr") and "t" in n:
            t = self.term(fr, n, st)
            if t is not None:
                return [(st, t)]
        if n["k"] in ("CXXConstructExpr", "CXXFunctionalCastExpr") and "t" in n and len(n.get("c") or ()) == 1 and isinstance(n["c"][0], dict) and \
                re.match(r"(std::variant<)?gcs::VariableConditionFrom<", plain(fr["f"].type(n))):
            v = self.sym(fr, n["c"][0], st)
            if v is not None:
                return [(st, v if v[0] == "lit" else ("lit", "as", v))]
        if n["k"] in ("CXXConstructExpr", "CXXFunctionalCastExpr") and "t" in n and len(n.get("c") or ()) == 1 and isinstance(n["c"][0], dict) and \
                re.match(r"std::variant<.*Justif", plain(fr["f"].type(n))):
            v = self.sym(fr, n["c"][0], st)
            if v is not None and v[0] == "just":
                return [(st, v)]
        if n["k"] == "CXXFunctionalCastExpr" and "overloaded<" in fr["f"].type(n):
            return [(st, None)]
        return None

    # ---- what happens
    @staticmethod
    def pend(s):
        return next((x for x in s.ts if x[0] == "pend"), None)

    @staticmethod
    def swap(s, old, new):
        return s.with_ts((s.ts - {old}) | {new})

    @staticmethod
    def mark(s, *xs):
        return s.with_ts(s.ts | set(xs))

    def logger_null(self, s):
        """Whether the path is one where there is known to be no logger."""
        return any(k.split("@")[0].endswith("logger") and v == NULL for k, v in s.env.items() if k in self.loggers)

    def on_call(self, fr, n, st, name, key, args):
        k = n["k"]
        cs = n.get("c") or []
        if is_state_infer(n):
            a = tuple(self.sym(fr, c, st, args[i] if i < len(args) else None) for i, c in enumerate(cs) if isinstance(c, dict) and c["k"] != "CXXDefaultArgExpr")
            what = a[0] if name == "infer" and len(a) == 1 else ("lit", OPS.get(name, "?")) + a
            base = st
            p = self.pend(st)
            if p is not None:
                self.judge(self, fr["f"].at(n), st, "next", None, None)
                base = st.with_ts(frozenset(x for x in st.ts if x[0] in ("steps",)))
            out = []
            for o in self.outcomes:
                out.append(("val", self.mark(base, ("pend", o, what)), ("c", o)))
            return out
        own = owner(key)
        if own == LOGGER and name == "infer" and cs:
            return [("val", self.mark(st, ("log", self.sym(fr, cs[0], st, args[0]), self.sym(fr, cs[1], st, args[1] if len(args) > 1 else None), self.where(st))), None)]
        if name == "infer_explicitly" and len(cs) >= 4:
            return [("val", self.mark(st, ("log", self.sym(fr, cs[1], st, args[1]), ("explicit", self.place(fr, cs[2], st), self.place(fr, cs[3], st)), self.where(st))), None)]
        if name == "emit_explicit_steps" and len(cs) >= 2:
            return [("val", self.mark(st, ("steps", self.place(fr, cs[1], st))), None)]
        if k == "CXXMemberCallExpr" and name in ("emplace_back", "push_back") and isinstance(n.get("obj"), dict) and INFERENCE in fr["f"].type(n["obj"]):
            vs = list(cs)
            avs = list(args)
            if len(vs) == 1:        # a pair made in place
                inner = self.peel(vs[0])
                while isinstance(inner, dict) and inner["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") and len([c for c in inner.get("c") or () if isinstance(c, dict)]) == 1:
                    inner = self.peel(inner["c"][0])
                vs = [c for c in (inner or {}).get("c") or () if isinstance(c, dict)]
                avs = [self.expr(fr, c, st)[0][1] for c in vs]
            if len(vs) == 2:
                c = sum(1 for x in st.ts if x[0] == "rec")
                return [("val", self.mark(st, ("rec", self.sym(fr, vs[0], st), avs[1], min(c, 2))), None)]
            return [("val", self.mark(st, ("rec", None, None, 0)), None)]
        if name == "visit" and (k == "CXXMemberCallExpr" and cs or k == "CallExpr" and len(cs) >= 2):
            r = self.visit(fr, n, st, n.get("obj") if k == "CXXMemberCallExpr" else cs[0], cs[0] if k == "CXXMemberCallExpr" else cs[1])
            if r is not None:
                return r
        if k == "CallExpr" and strip_targs(qcallee(n)) in ("std::get_if", "std::holds_alternative", "std::get") or name == "index":
            return self.tag(self.default_call(fr, n, st, name, key, args, cs, n.get("obj")))
        return None

    def tag(self, r):
        return [(kind, self.mark(s, ("asked",)), v) for kind, s, v in r]

    @staticmethod
    def where(s):
        return "in" if any(x[0] == "pend" for x in s.ts) else "out"

    def visit(self, fr, n, st, visitor, subject):
        ls = [x for x in self.lambdas(visitor)]
        if not ls:
            return None
        T = alternatives(fr["f"].type(self.peel(subject))) if isinstance(self.peel(subject), dict) and "t" in self.peel(subject) else []
        p = self.place(fr, subject, st)
        out = []
        for alt in T:
            chosen = None
            for l in ls:
                rec = self.prog.fn(l.get("f"))
                if rec is None or not rec["params"]:
                    continue
                if plain(rec.type(rec["params"][0]["t"])) == alt and not l.get("generic"):
                    chosen = rec
            if chosen is None:
                insts = [r for l in ls if l.get("generic") for kk, r in self.prog.insts.items() if kk.startswith(l["f"] + "#<") or kk.startswith(l["f"] + "!<")]
                chosen = next((r for r in insts if r["params"] and plain(r.type(r["params"][0]["t"])) == alt), None)
            if chosen is None or not chosen.get("body"):
                out.append(("val", self.mark(st, ("asked",)), None))
                continue
            name = alt.rsplit("::", 1)[-1] if "<" not in alt else "condition"
            s = self.mark(st, ("alt", p, name))
            d = chosen["params"][0]["d"]
            s = self.bind(s, d, ("ref", (p or "?") + ".<" + name + ">"))
            for kind, s2, v in self.run(chosen, s, fr["this"], [s.env.get(d)]):
                out.append(("throw" if kind == "throw" else "val", self.forget_locals(chosen, s2), v))
        return out

    @staticmethod
    def lambdas(n):
        out, work = [], [n]
        while work:
            x = work.pop(0)
            if not isinstance(x, dict):
                continue
            if x["k"] == "LambdaExpr":
                out.append(x)
                continue
            work = list(kids(x)) + work
        return out

    def loop(self, fr, n, states):
        return [(k, s, v) for k, s, v in Engine.loop(self, fr, n, states)]

    def on_iter(self, fr, n, st):
        """What was begun in one round is finished in it."""
        if self.pend(st) is not None:
            self.judge(self, fr["f"].at(n), st, "next", None, None)
            st = st.with_ts(frozenset(x for x in st.ts if x[0] == "steps"))
        return [st]


def explore(prog, outcomes, judge, note):
    """Runs every tracker member that changes a domain or reports a contradiction.
    judge(engine, at, state, kind, value, fn) is asked about each way out; note(fn, problem) about what could not be followed."""
    ms = {}
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if f.get("body") and not f.get("pattern") and not f.get("lambda") and strip_targs(f.get("cls") or "") in TRACKERS:
                ms[k] = f
    does, calls = {}, {}
    for k, f in ms.items():
        calls[k] = set()
        does[k] = False
        work = [f]
        seen = set()
        while work:
            g = work.pop()
            for x in walk(g["body"]):
                if x["k"] in CALLS:
                    if x.get("f") in ms:
                        calls[k].add(x["f"])
                    if is_state_infer(x) or fname(x) in ("infer_explicitly", "emit_explicit_steps") or owner(x.get("f")) == LOGGER and fname(x) == "infer" or \
                            fname(x) in ("emplace_back", "push_back") and "Inference" in (x.get("f") or "")[:200]:
                        does[k] = True
                elif x["k"] == "CXXThrowExpr":
                    does[k] = True
                elif x["k"] == "LambdaExpr" and x.get("generic"):
                    for kk in prog.insts:
                        if (kk.startswith(x["f"] + "#<") or kk.startswith(x["f"] + "!<")) and kk not in seen:
                            seen.add(kk)
                            work.append(prog.insts[kk])
    useful = {k for k in ms if does[k]}
    while True:
        more = {k for k in ms if k not in useful and calls[k] & useful}
        if not more:
            break
        useful |= more
    changes = {k for k in useful if any(is_state_infer(x) for x in walk(ms[k]["body"]))}
    while True:
        more = {k for k in useful if k not in changes and calls[k] & changes}
        if not more:
            break
        changes |= more
    roots = {}
    for k in sorted(useful):
        f = ms[k]
        if any(INFERENCE == plain(f.type(p["t"])) for p in f["params"]):
            continue
        if k not in changes and not any(x["k"] == "CXXThrowExpr" for x in walk(f["body"])) and not (calls[k] & useful):
            continue
        if k not in changes and not reaches_throw(ms, calls, k):
            continue
        roots.setdefault((f["begin"] if "begin" in f.d else f.loc, f.get("cls"), tuple(kind_of(f.type(p["t"])) for p in f["params"][:4])), f)
    n = 0
    for (b, c, sh), f in sorted(roots.items(), key=lambda x: repr(x[0])):
        e = Tracker(prog, ms, outcomes, useful, judge)
        e.root = f
        e.loggers = {p["d"] for p in f["params"] if "ProofLogger" in f.type(p["t"])}
        e.materialises = "Eager" in (f.get("cls") or "")
        try:
            st = St({}, frozenset())
            for kind, s, v in e.run(f, st):
                judge(e, f.loc, s, kind, v, f)
        except TooHard as x:
            note(f, str(x))
            continue
        n += 1
    return n, roots


def kind_of(t):
    """What matters of a parameter's type: which kind of variable, literal or justification it is, not whose."""
    t = plain(t)
    for m in ("JustifyExplicitly", "JustifyUsingRUP", "std::variant"):
        if m + "<" in t:
            return m
    return "" if "lambda" in t or "hints::" in t else t


def reaches_throw(ms, calls, k):
    seen, work = set(), [k]
    while work:
        y = work.pop()
        if y in seen:
            continue
        seen.add(y)
        if any(x["k"] == "CXXThrowExpr" for x in walk(ms[y]["body"])):
            return True
        work += calls[y]
    return False
