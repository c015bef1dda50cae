"""C18: restarts and learned nogoods never lose solutions."""
import ir
from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS
from common import Report, main
from flow import Engine, St, TooHard, NULL, NN, TRUE, FALSE, params_of
from c17 import plain
import c07
from c07 import ts_get, ts_set, is_brancher, short_fn

GUESS = ("s", "guess")
PREFIX = ("all", "prefix")
ADD = "gcs::NogoodStore::add"
EMIT = "gcs::innards::ProofLogger::emit_learned_nogood"


def lits_type(t):
    t = plain(t)
    return t.startswith(("std::vector<gcs::IntegerVariableCondition", "std::vector<gcs::VariableConditionFrom", "std::vector<gcs::innards::Literal", "std::vector<std::variant<")) or \
        t.startswith("std::vector<") and ("VariableCondition" in t or "Literal" in t) or t.endswith("Literals") or t.endswith("Nogood")


class Node(Engine):
    """One node of the search: what has been explored, and what is learned from it."""

    def __init__(self, prog, rep, fn, exhausted):
        super().__init__(prog)
        self.rep, self.fn, self.exhausted = rep, fn, exhausted
        self.done = {}
        self.counts = {}
        self.handed = self.unfollowed = False
        self.rt = prog.enums.get(plain(fn.type(fn["ret"])))
        self.p = {}
        for p in fn["params"]:
            t = plain(fn.type(p["t"]))
            if "NogoodStore" in t:
                self.p["store"] = p["d"]
            elif "ProofLogger" in t:
                self.p["logger"] = p["d"]
            elif lits_type(t.replace("const ", "").replace(" &", "")):
                self.p["prefix"] = p["d"]
            elif "optional<" in t and ("Literal" in t or "variant" in t or "Condition" in t):
                self.p["guess"] = p["d"]
            elif t.replace("const ", "") in ("unsigned long long", "unsigned long", "int", "unsigned int", "long long") and "depth" not in self.p:
                self.p["depth"] = p["d"]
        self.index = {p["d"]: i for i, p in enumerate(fn["params"])}
        for r in ("store", "logger", "prefix", "guess"):
            if r not in self.p:
                raise TooHard("the search's %s parameter was not identified" % r)

    def should_inline(self, rec, n):
        return "(anonymous namespace)" in rec.key and rec.key != self.fn.key

    def start(self):
        return [("v", frozenset([PREFIX])) if p["d"] == self.p["prefix"] else None for p in self.fn["params"]]

    # ---- obligations
    def need(self, ok, kind, fr, n, msg):
        k = (kind, n.get("p"), msg if not ok else "", ok)
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if k in self.done:
            return
        self.done[k] = True
        f = fr["f"]
        what = "%s|%s" % (short_fn(self.fn), kind)
        if ok is None:
            self.rep.undecided(kind, f.at(n), what, msg)
        else:
            self.rep.check(ok, kind, f.at(n), what, msg, "%s %s" % (f.at(n), kind))

    def refuted(self, st, item):
        """Whether a literal stands for an alternative known to be completely explored."""
        if item == GUESS:
            return ts_get(st, "child") in self.exhausted
        if item == ("s", "prev"):
            return True
        return False

    def flatten(self, items):
        if items is None:
            return None
        res = set()
        for i in items:
            if i is not None and i[0] == "el":
                res |= self.flatten(i[1]) or set()
            else:
                res.add(i)
        return res

    # ---- values
    def next_alternative(self, st, fr=None, n=None):
        ok = ts_get(st, "child") in self.exhausted
        if ok and n is not None and self.active(st):
            kept = [v for v in st.env.values() if v[0] == "v" and GUESS in v[1] and PREFIX not in v[1]]
            self.need(True if kept else None if self.handed else False, "explored-alternatives-are-remembered", fr, n, "an alternative that was completely explored is not set aside to be learned from, so what it contains could be reported again after a restart")
        new = ("s", "prev") if ok else ("s", "unfinished")

        def sub(v):
            if v == GUESS:
                return new
            if isinstance(v, tuple) and v and v[0] in ("v", "el", "it"):
                return (v[0], frozenset(sub(x) for x in v[1])) + v[2:]
            if isinstance(v, tuple) and v and v[0] == "neg":
                return ("neg", sub(v[1]))
            return v
        env = {k: sub(v) for k, v in st.env.items()}
        return ts_set(St(env, st.ts, st.trace), child=None, guessed=None, flip=None)

    def truth(self, v):
        if v is not None and v[0] in ("s", "neg", "el"):
            return True
        return super().truth(v) if v is None or v[0] not in ("v", "it") else None

    def on_call(self, fr, n, st, name, key, args):
        q = strip_targs(qcallee(n))
        k = n["k"]
        op = n.get("op") if k == "CXXOperatorCallExpr" else None
        cs = [c for c in n.get("c") or () if isinstance(c, dict)]
        obj = n.get("obj") if isinstance(n.get("obj"), dict) else None
        if op == "()" and is_brancher(fr["f"].type(n)):
            return [("val", st, ("s", "branches"))]
        if name in ("begin", "end", "cbegin", "cend") and k == "CXXMemberCallExpr" and obj is not None:
            if is_brancher(fr["f"].type(obj)):
                return [("val", st, ("s", "branch-" + name))]
            p = self.place(fr, obj, st)
            v = self.get(st, p) if p else None
            if v is not None and v[0] == "v":
                return [("val", st, ("it", v[1]))]
        if args and args[0] == ("s", "branch-begin"):
            if op == "*":
                return [("val", st, GUESS)]
            if op == "++":
                return [("val", self.next_alternative(st, fr, n), args[0])]
        if op == "*" and len(cs) == 1 and args and args[0] is not None and args[0][0] in ("s", "neg", "el"):
            return [("val", st, args[0])]
        if name == "value" and obj is not None and k == "CXXMemberCallExpr":
            p = self.place(fr, obj, st)
            v = self.get(st, p) if p else None
            if v is not None and v[0] in ("s", "neg", "el"):
                return [("val", st, v)]
        if op == "!" and args and args[0] is not None and args[0][0] in ("s", "el"):
            return [("val", st, ("neg", args[0]))]
        if q == "std::get_if" and args:
            v = args[0] if args[0] is not None else NN
            return [("val", st, v), ("val", ts_set(st, owe=None, learnt=True) if ts_get(st, "owe") else st, NULL)]
        if q == "std::get" and args:
            return [("val", st, args[0])]
        t = plain(fr["f"].type(n)) if "t" in n else ""
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(args or ()) == 1 and args[0] is not None and args[0][0] in ("s", "neg", "el") and not lits_type(t):
            return [("val", st, args[0])]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and lits_type(t):
            real = [(c, a) for c, a in zip(cs, args) if c["k"] != "CXXDefaultArgExpr"]
            if not real:
                return [("val", st, ("v", frozenset()))]
            its = [a for _, a in real if a is not None and a[0] == "it"]
            if len(its) == 2 and its[0] == its[1]:
                return [("val", st, ("v", its[0][1]))]
            if len(real) == 1 and real[0][1] is not None and real[0][1][0] == "v":
                return [("val", st, real[0][1])]
            return [("val", st, None)]
        if k == "CXXMemberCallExpr" and obj is not None and lits_type(fr["f"].type(obj)):
            p = self.place(fr, obj, st)
            v = self.get(st, p) if p else None
            if name in ("reserve", "shrink_to_fit"):
                return [("val", st, None)]
            if name == "clear" and p:
                return [("val", self.write(fr, n, st, p, ("v", frozenset())), None)]
            if name in ("push_back", "emplace_back") and v is not None and v[0] == "v" and args:
                return [("val", self.write(fr, n, st, p, ("v", v[1] | self.item(st, args[0]))), None)]
            if name in ("insert", "append_range") and v is not None and v[0] == "v" and args:
                its = [a for a in args if a is not None and a[0] in ("it", "v")]
                got = its[-1][1] if its else None
                return [("val", self.write(fr, n, st, p, None if got is None else ("v", v[1] | got)), None)]
        if q == "gcs::innards::State::guess" and args:
            return [("val", ts_set(st, guessed=args[0] or ("?",)), None)]
        if key == self.fn.key:
            return self.recursion(fr, n, st, args)
        if q == ADD:
            return [("val", self.learn(fr, n, st, args), None)]
        if q == EMIT:
            return [("val", self.emit(fr, n, st, args), None)]
        if q == "gcs::innards::ProofLogger::forget_proof_level":
            self.settled(fr, n, st)
            return [("val", ts_set(st, forgot="deep" if st.env.get("?deep") == TRUE else "any"), None)]
        if q == "gcs::innards::ProofLogger::backtrack":
            return [("val", ts_set(st, refutation=True), None)]
        if q == "std::function::operator()" and op == "()":
            c0 = self.peel(n["c"][0])
            if isinstance(c0, dict) and plain(fr["f"].type(n)) == "bool":
                return [("val", st, TRUE), ("val", ts_set(st, stopped=True), FALSE)]
        if q.startswith("std::atomic") and name in ("load", "operator bool", "test", "operator __int_type"):
            return [("val", ts_set(st, stopped=True), TRUE), ("val", st, FALSE)]
        if GUESS in (args or ()) and name not in ("(ctor)",) and not op:
            rec = self.prog.fn(key) if key else None
            if rec is None or not self.should_inline(rec, n):
                self.handed = True      # given to something this analysis does not follow
        return None

    def item(self, st, v):
        """What pushing a value adds; pushing every element of a collection adds the collection."""
        if v is None:
            return {("?",)}
        if v[0] == "el" and ts_get(st, "loop" + v[2]) == "whole":
            return set(v[1])
        return {v}

    def equality(self, fr, n, st, want):
        a, b = n["c"]
        res, mine = [], False
        for s, va in self.expr(fr, a, st):
            for s2, vb in self.expr(fr, b, s):
                if ("s", "branch-end") in (va, vb) or any(isinstance(x, dict) and "default_sentinel" in fr["f"].type(self.peel(x) or x) for x in (a, b)):
                    mine = True
                    res += [(s2, True), (s2, False)]
                    continue
                neg = next((v for v in (va, vb) if v is not None and v[0] == "neg"), None)
                if neg is not None and GUESS in (va, vb):
                    mine = True
                    if neg[1] == GUESS:
                        res.append((s2, not want))
                    else:
                        res.append((ts_set(s2, flip=neg[1]), want))
                        res.append((s2, not want))
                    continue
                if va is not None and vb is not None and {va[0], vb[0]} <= {"s", "el", "neg"} and va != vb:
                    mine = True
                    res += [(s2, True), (s2, False)]
        if mine:
            return res
        return super().equality(fr, n, st, want)

    def on_cond(self, fr, n, st):
        """Whether a collection is empty; depth > 0 and its like."""
        if n["k"] == "CXXMemberCallExpr" and fname(n) == "empty" and isinstance(n.get("obj"), dict):
            p = self.place(fr, n["obj"], st)
            v = self.get(st, p) if p else None
            if v is not None and v[0] == "v":
                if not v[1]:
                    return [(st, True)]
                if v[1] - {PREFIX}:
                    return [(st, False)]
        d = self.p.get("depth")
        if d is None:
            return None
        op = n.get("op") if n["k"] == "BinaryOperator" else None

        def is_depth(x):
            return self.place(fr, x, st) == d

        def num(x):
            c = self.const(self.peel(x)) if isinstance(x, dict) else None
            return c[1] if c is not None and isinstance(c[1], int) else None
        if n["k"] == "DeclRefExpr" and is_depth(n):
            return self.fork(st, "?deep", (d,))
        if op and len(n.get("c") or ()) == 2:
            a, b = n["c"]
            if is_depth(b) and num(a) is not None:
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if is_depth(a) and num(b) is not None:
                v = num(b)
                pos = (op, v) in ((">", 0), ("!=", 0), (">=", 1))
                neg = (op, v) in (("==", 0), ("<=", 0), ("<", 1))
                if pos or neg:
                    return [(s, t == pos) for s, t in self.fork(st, "?deep", (d,))]
        return None

    # ---- loops over collections of literals
    def on_iter(self, fr, n, st):
        r = n.get("range")
        if not isinstance(r, dict):
            return [st]
        d = (n.get("var") or {}).get("d")
        if is_brancher(fr["f"].type(self.peel(r))):
            st = self.next_alternative(st, fr, n)
            return [St({**st.env, d: GUESS}, st.ts, st.trace)] if d else [st]
        p = self.place(fr, r, st)
        v = self.get(st, p) if p else None
        if v is None or v[0] != "v":
            return [st]
        self.settled(fr, n, st)
        if not v[1]:
            return []
        lp = fr["f"].at(n)
        if PREFIX not in v[1]:
            st = ts_set(st, skipped=True if ts_get(st, "owe") else ts_get(st, "skipped"), owe=True)
        if d:
            st = St({**st.env, d: ("el", v[1], lp)}, st.ts, st.trace)
        return [ts_set(st, **{"loop" + lp: "whole" if self.simple(n) else "some"})]

    @staticmethod
    def simple(n):
        return not any(x["k"] in ("BreakStmt", "ContinueStmt", "IfStmt", "ReturnStmt", "ConditionalOperator", "SwitchStmt") for x in walk(n.get("body"), False))

    def range_for(self, fr, n, states):
        lp = fr["f"].at(n)
        res = []
        full = []
        for s in states:
            p = self.place(fr, n["range"], s) if isinstance(n.get("range"), dict) else None
            v = self.get(s, p) if p else None
            if v is not None and v[0] == "v" and v[1]:
                full.append(s)
            else:
                res += super().range_for(fr, n, [s])
        for s in full:
            c0 = self.get(s, self.place(fr, n["range"], s))[1]
            for k, s2, v in super().range_for(fr, n, [s]):
                # a pass over nothing adds nothing, which is all there was to add
                if not (k == "fall" and (self.simple(n) or c0 - {PREFIX}) and ts_get(s2, "loop" + lp) is None):
                    res.append((k, s2, v))
        out = []
        for k, s, v in res:
            if k == "fall" and ts_get(s, "loop" + lp) is not None:
                p = self.place(fr, n["range"], s)
                c = self.get(s, p) if p else None
                if c is not None and c[0] == "v" and PREFIX not in c[1]:
                    if ts_get(s, "owe"):
                        s = ts_set(s, skipped=True, owe=None)
                    if ts_get(s, "learnt"):
                        s = ts_set(s, covered=not ts_get(s, "skipped"))
                    s = ts_set(s, skipped=None, learnt=None)
            out.append((k, ts_set(s, **{"loop" + lp: None}), v))
        return out

    # ---- events
    def active(self, st):
        return self.get(st, self.p["store"]) != NULL

    def logging(self, st):
        return self.get(st, self.p["logger"]) != NULL

    def recursion(self, fr, n, st, args):
        if self.active(st):
            g = args[self.index[self.p["guess"]]]
            self.need(g == GUESS if g is not None and g[0] != "?" else None, "explores-the-alternative", fr, n,
                      "the alternative handed to the subtree is not the one being explored" if g is not None else "the alternative handed to the subtree is not known")
            h = ts_get(st, "guessed")
            self.need(True if h == GUESS else None if h == ("?",) else False, "explores-the-alternative", fr, n, "the subtree is explored without its alternative having been guessed")
            v = args[self.index[self.p["prefix"]]]
            if v is None or v[0] != "v" or ("?",) in v[1]:
                self.need(None, "prefix-is-the-path", fr, n, "the path handed to the subtree was not followed")
            else:
                its = self.flatten(v[1])
                flip = ts_get(st, "flip")
                rest = its - {PREFIX, GUESS}
                if PREFIX not in v[1]:
                    self.need(None if PREFIX in its else False, "prefix-is-the-path", fr, n, "the path handed to the subtree may leave out decisions made above this node, so what is learned there would forbid too much")
                elif rest:
                    self.need(False, "prefix-is-the-path", fr, n, "the path handed to the subtree contains a decision that was not made on it")
                elif GUESS not in its:
                    self.need(flip is not None and flip == ("s", "prev"), "prefix-is-the-path", fr, n,
                              "a decision is left out of the path handed to the subtree without being known to be the negation of an alternative already refuted here")
                else:
                    self.need(True, "prefix-is-the-path", fr, n, "")
        res = []
        for c, t in zip([c for c in n.get("c") or () if isinstance(c, dict)], params_of(n.get("f")) or []):
            if t.rstrip().endswith("&") and not t.startswith("const "):
                p = self.place(fr, c, st)
                if p is not None:
                    st = self.kill(st, p)
        if self.rt is None:
            raise TooHard("the search does not return an enumeration")
        for v in self.rt["values"]:
            res.append(("val", ts_set(st, child=v["n"]), ("c", v["n"])))
        return res

    def content(self, v):
        if v is None or v[0] != "v" or ("?",) in v[1]:
            return None
        return v[1]

    def learn(self, fr, n, st, args):
        c = self.content(args[0]) if args else None
        self.need(not ts_get(st, "stopped"), "nothing-learned-after-a-stop", fr, n, "a nogood is learned although the search was asked to stop below this node")
        self.need(not ts_get(st, "forgot"), "learned-before-undoing", fr, n, "a nogood is recorded after the proof level holding its derivation was forgotten")
        if c is None:
            self.unfollowed = True
            self.need(None, "learns-refuted-alternatives", fr, n, "the nogood's contents were not followed")
            return st
        its = self.flatten(c)
        rest = its - {PREFIX}
        if PREFIX not in c:
            self.need(None if PREFIX in its else False, "learns-refuted-alternatives", fr, n, "a nogood leaves out the decisions on the path to this node, so it forbids more than was explored")
        elif not rest:
            self.need(False, "learns-refuted-alternatives", fr, n, "a nogood forbids the whole path to this node, which was not completely explored")
        else:
            bad = [i for i in rest if not self.refuted(st, i)]
            kinds = [i for i in c if i != PREFIX]
            self.need(not bad, "learns-refuted-alternatives", fr, n, "a nogood is learned from an alternative that %s" % self.why(st, bad))
            self.need(len(kinds) == 1, "learns-refuted-alternatives", fr, n, "a nogood combines several alternatives of one node, so it says nothing about any of them")
        st = ts_set(st, owe=None, learnt=True)
        e = ts_get(st, "emitted")
        if e is not None and (self.flatten(e) == its or ("?",) in e):
            return ts_set(st, emitted=None)
        return ts_set(st, pending=c)

    def why(self, st, bad):
        for b in bad:
            if b == GUESS:
                ch = ts_get(st, "child")
                return "had not been explored" if ch is None else "was cut short (%s)" % ch
            if b == ("s", "unfinished"):
                return "was cut short"
            if b and b[0] == "neg":
                return "was negated"
        return "was not shown to be refuted"

    def emit(self, fr, n, st, args):
        self.need(not ts_get(st, "forgot"), "learned-before-undoing", fr, n, "a nogood is derived in the proof after the level holding its derivation was forgotten")
        c = self.content(args[0]) if args else None
        if c is None:
            self.need(None, "recorded-in-the-proof", fr, n, "the logged nogood's contents were not followed")
            return ts_set(st, emitted=frozenset([("?",)]), pending=None)
        p = ts_get(st, "pending")
        if p is not None:
            self.need(self.flatten(p) == self.flatten(c), "recorded-in-the-proof", fr, n, "the nogood recorded in the proof is not the one learned")
            return ts_set(st, pending=None)
        return ts_set(st, emitted=c)

    def settled(self, fr, n, st):
        p = ts_get(st, "pending")
        if p is not None:
            self.need(not self.logging(st), "recorded-in-the-proof", fr, n, "a nogood is learned without the same nogood being derived in the proof")
        elif self.counts.get("learns-refuted-alternatives"):
            self.need(True, "recorded-in-the-proof", fr, n, "")

    def finish(self, outs):
        f = self.fn
        n = dict(p="", k="")
        fr = dict(f=f)
        bad = {}
        rets = 0
        for kind, s, v in outs:
            if kind != "return":
                continue
            rets += 1
            name = v[1] if v is not None and v[0] == "c" else None
            names = [name] if name else [x["n"] for x in self.rt["values"] if not (v is not None and v[0] == "ne" and x["n"] in v[1])]
            if ts_get(s, "pending") is not None and self.logging(s):
                bad["a nogood is learned without the same nogood being derived in the proof"] = "recorded-in-the-proof"
            for x in names:
                if x not in self.exhausted and ts_get(s, "refutation"):
                    bad["the proof is told the subtree was refuted although the search can report '%s'" % x] = "refutation-only-when-exhausted"
                if x == self.restart and self.active(s) and not ts_get(s, "covered") and any(
                        w[0] == "v" and PREFIX not in w[1] and any(self.refuted(s, i) for i in w[1]) for w in s.env.values()):
                    if self.unfollowed:
                        self.rep.undecided("everything-explored-is-learned", f.loc, short_fn(f), "what is learned was not followed")
                        continue
                    bad["the search can unwind for a restart without learning from an alternative that was completely explored"] = "everything-explored-is-learned"
                if x == self.restart and ts_get(s, "forgot") == "any":
                    bad["when unwinding for a restart, the root's own reasoning can be forgotten"] = "root-reasoning-kept"
        for why, kind in bad.items():
            self.rep.bad(kind, f.loc, short_fn(f) + "|" + kind, why)
        for kind in ("refutation-only-when-exhausted", "root-reasoning-kept", "everything-explored-is-learned"):
            if kind not in bad.values():
                self.rep.ok(kind, "%d return states" % rets)
        return rets


class Driver(Engine):
    """The function that starts, and restarts, the search."""

    def __init__(self, prog, node):
        super().__init__(prog)
        self.node = node
        self.calls = []

    def should_inline(self, rec, n):
        return "(anonymous namespace)" in rec.key and rec.key != self.node.fn.key

    def truth(self, v):
        return None if v is not None and v[0] == "v" else super().truth(v)

    def on_call(self, fr, n, st, name, key, args):
        q = strip_targs(qcallee(n))
        cs = [c for c in n.get("c") or () if isinstance(c, dict)]
        t = plain(fr["f"].type(n)) if "t" in n else ""
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and lits_type(t) and not [c for c in cs if c["k"] != "CXXDefaultArgExpr"]:
            return [("val", st, ("v", frozenset()))]
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and t == "gcs::Nogoods":
            # over the store, if it is one
            src = [self.place(fr, c, st) for c in cs]
            return [("val", st, ("nogoods", src[0] if src and src[0] else "?"))]
        if q == "gcs::Constraint::install" and isinstance(n.get("obj"), dict):
            p = self.place(fr, n["obj"], st)
            v = self.get(st, p) if p else None
            if "gcs::Nogoods" in fr["f"].type(self.peel(n["obj"])) or v is not None and v[0] == "nogoods":
                st = ts_set(st, enforced=True)
            return [("val", st, None)]
        if n["k"] == "CXXMemberCallExpr" and q.startswith("gcs::") and "t" in n and isinstance(n.get("obj"), dict) and "gcs::Nogoods" in fr["f"].type(self.peel(n["obj"])) and name != "install":
            return [("val", st, None)]
        if q == "gcs::innards::State::new_epoch":
            return [("val", ts_set(st, epoch=min(3, ts_get(st, "epoch", 0) + 1)), None)]
        if q == "gcs::innards::State::backtrack":
            return [("val", ts_set(st, epoch=ts_get(st, "epoch", 0) - 1), None)]
        if q in ("gcs::innards::State::guess",):
            return [("val", ts_set(st, guessed=True), None)]
        if q.startswith("gcs::RestartSchedule::") or q.startswith("std::optional") and name in ("operator->",):
            return None
        if key == self.node.fn.key:
            self.calls.append((fr["f"], n, st, args))
            changed = self.assigned_in(self.node.fn)
            for c, ty, pr in zip(cs, params_of(n.get("f")) or [], self.node.fn["params"]):
                if ty.rstrip().endswith("&") and not ty.startswith("const ") and pr["d"] in changed:
                    p = self.place(fr, c, st)
                    if p is not None:
                        st = self.kill(st, p)
            return [("val", ts_set(st, result=v["n"]), ("c", v["n"])) for v in self.node.rt["values"]]
        return None


def run():
    prog = ir.Program(ir.lib_units())
    rep = Report("C18", rule="Every path through the search node that learns nogoods, and through the function that restarts it, is explored over a finite state recording which "
                 "alternatives were explored with which outcome and what each collection of literals holds: a nogood is the path's decisions plus one alternative completely explored, "
                 "derived in the proof before its derivation is forgotten; the search is re-entered from the root, and never left, after a cut-off.",
                 explanation="Path-sensitive provenance and typestate analysis: contents of literal collections (incoming path, current alternative, refuted alternatives) are followed through pushes, "
                 "copies and loops; obligations arise at recursive calls, at additions to the store, at proof-level operations and at returns.")
    top = prog.fns.get(next((k for k in prog.fns if k.startswith("gcs::solve_with(")), None))
    if not top:
        raise ir.Broken("gcs::solve_with not found")
    reach = c07.callees(prog, top)
    main_search = [f for f in c07.search_functions(prog) if f.key in reach]
    if len(main_search) != 1:
        raise ir.Broken("the search called by solve_with was not identified (%d candidates)" % len(main_search))
    fn = main_search[0]
    # which results of the search mean exhaustion: those that lead to completion being reported
    outer = c07.Outer(prog, rep, fn)
    outs = outer.run(top, St())
    exhausted = {ts_get(st, "result") for name, f, n, st, a, p in outer.claims if name in c07.CLAIMS | {"completed"} and not ts_get(st, "infeasible")} - {None}
    if not exhausted:
        raise ir.Broken("no result of the search leads to completion being reported")
    node = Node(prog, rep, fn, exhausted)
    drv = Driver(prog, node)
    douts = drv.run(top, St())
    driver(prog, rep, top, node, drv, douts)
    outs = node.run(fn, St(), args=node.start())
    rets = node.finish(outs)
    rep.floor("return states of the search node", rets, 4)
    rep.floor("recursive calls checked", node.counts.get("prefix-is-the-path", 0), 1)
    rep.floor("nogoods learned", node.counts.get("learns-refuted-alternatives", 0), 1)
    rep.floor("nogoods recorded in the proof", node.counts.get("recorded-in-the-proof", 0), 1)
    store(prog, rep)
    rep.extra["functions"] = sorted(short_fn(prog.fn(k)) for k in node.fns_seen | drv.fns_seen if prog.fn(k))
    rep.extra["calls"] = node.calls_seen + drv.calls_seen
    return rep.finish(prog)


def driver(prog, rep, top, node, drv, outs):
    idx = node.index
    seen = set()

    def once(ok, kind, f, n, msg):
        k = (kind, n.get("p"), ok, "" if ok else msg)
        if k not in seen:
            seen.add(k)
            what = "%s|%s" % (top.key.split("(")[0], kind)
            if ok is None:
                rep.undecided(kind, f.at(n), what, msg)
            else:
                rep.check(ok, kind, f.at(n), what, msg, "%s %s" % (f.at(n), kind))
    rep.floor("searches started", len(drv.calls), 2)
    again = {ts_get(st, "result") for f, n, st, a in drv.calls} - {None}
    node.restart = next(iter(again)) if len(again) == 1 else None
    for f, n, st, args in drv.calls:
        r = ts_get(st, "result")
        cs = [c for c in n.get("c") or () if isinstance(c, dict)]
        g = args[idx[node.p["guess"]]]
        once(True if g == NULL else None if g is None else False, "restart-from-the-root", f, n, "the search is entered with a decision already made")
        v = args[idx[node.p["prefix"]]]
        once(None if v is None or v[0] != "v" else not v[1], "restart-from-the-root", f, n, "the search is entered with a path that is not empty")
        if "depth" in node.p:
            d = args[idx[node.p["depth"]]] or drv.const(drv.peel(cs[idx[node.p["depth"]]]))
            once(None if d is None else d == ("c", 0), "restart-from-the-root", f, n, "the search is entered at a depth other than the root's")
        once(not ts_get(st, "epoch", 0) or r is None, "restart-from-the-root", f, n, "the search is re-entered inside an epoch that was opened since the last pass")
        once(not ts_get(st, "guessed"), "restart-from-the-root", f, n, "the search is entered after a guess")
        s = args[idx[node.p["store"]]]
        wants = next((v for k, v in st.env.items() if k.endswith(".restarts") and k.startswith("$")), None)
        if wants != NULL:
            once(None if s is None else s != NULL, "restarts-remember", f, n, "the search can restart with nowhere to record what was refuted, so it would report the same solutions again")
        if s is not None and s != NULL:
            once(bool(ts_get(st, "enforced")), "restarts-remember", f, n, "what is learned is recorded in a store that no propagator enforces")
    if len(again) > 1:
        rep.bad("restart-only-after-a-cut-off", top.loc, top.key.split("(")[0] + "|restart-only-after-a-cut-off", "the search is run again after results %s: at most one of them can be a cut-off" % sorted(again))
    elif not again:
        raise ir.Broken("the search is never run again: no restart loop was found")
    else:
        rep.ok("restart-only-after-a-cut-off", node.restart)
        if node.restart in node.exhausted:
            rep.bad("restart-only-after-a-cut-off", top.loc, top.key.split("(")[0] + "|exhausted", "the search is run again although it was exhausted")
    left = [s for k, s, v in outs if k == "return" and ts_get(s, "result") == node.restart]
    rep.check(not left, "no-end-in-mid-restart", top.loc, top.key.split("(")[0] + "|no-end-in-mid-restart", "the solve can end although its last pass was cut off for a restart, so what was not yet explored is lost",
              "%d final states" % len(outs))


class Adder(Engine):
    def on_call(self, fr, n, st, name, key, args):
        if name in ("push_back", "emplace_back") and args:
            return [("val", ts_set(st, stored=True) if args[0] == ("s", "nogood") else st, None)]
        return None


def store(prog, rep):
    f = next((f for f in prog.all_fns() if strip_targs(f.key).startswith(ADD + "(") and f.get("body")), None)
    if f is None:
        raise ir.Broken(ADD + " not found")
    e = Adder(prog)
    d = f["params"][0]["d"]
    outs = e.run(f, St(), args=[("s", "nogood")])
    rep.check(all(ts_get(s, "stored") for k, s, v in outs if k == "return"), "store-keeps-the-nogood", f.loc, ADD + "|store-keeps-the-nogood",
              "a nogood handed to the store is not kept, or not kept as it was given", "%d paths" % len(outs))


if __name__ == "__main__":
    main(run)
