"""C03: turning proof logging on does not change the search."""
import os
import re

import ir
from flow import params_of
from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS, root_of
from common import Report, main
from c17 import plain
import props
from props import proof_only, ASSIGN

LAYER = r"gcs::(?:innards::)?(ProofLogger|ProofModel|NamesAndIDsTracker|PolBuilder|PLine|Proof|ProofScaffoldingScope)\b"
LAYER_RE = re.compile(LAYER)
# What only the proof is made from: values of these types may differ without the search differing.
FOR_PROOF = re.compile(r"^(const )?(std::(optional|vector|variant|unique_ptr|shared_ptr|reference_wrapper|deque)<)*(gcs::innards::)?(Proof[A-Z]\w*|NamesAndIDsTracker|PolBuilder|Reason\w*|ReasonLiterals|SnapshottedReason|Justif\w+|AssertionAnnotation|RUP\w*|NoHint|NoReason|PLine|ExplicitReason|LazyReason\w*|ConcatReason|[A-Za-z]*ProofRule|HalfReif\w*|WPBSum\w*|WeightedPseudoBoolean\w*|SumOf|SumLessThanEqual|SumEquals|hints::)|^(const )?std::pair<(const )?(gcs::innards::)?(Proof[A-Z]\w*), *(gcs::innards::)?Proof[A-Z]")
STATE = "gcs::innards::State"
TRACKER = ("gcs::innards::InferenceTrackerBase", "gcs::innards::SimpleInferenceTracker", "gcs::innards::EagerProofLoggingInferenceTracker")
PROPAGATORS = {"install", "install_initialiser", "install_initial_contradiction", "add_conflict_observer", "propagate", "initialise", "disable_propagators_for_constraints",
               "trigger_on_change", "trigger_on_bounds", "trigger_on_instantiated", "increase_degree", "define_bound"}
WATCHES = {"watch", "clear_watches", "set_watch_state"}
QUIET_STATE = {"add_extra_proof_condition", "current", "state_of"}
EXITS = ("ReturnStmt", "BreakStmt", "ContinueStmt", "CoreturnStmt")
LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")
CHANGES = ("push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "pop_back", "try_emplace", "assign", "insert_or_assign", "reset")
STATES = {("EnumConst", n, str(i)) for n in ("Enable", "DisableUntilBacktrack") for i in range(4)}
SCALAR = re.compile(r"^(const )?(bool|int|long|long long|unsigned int|unsigned long|size_t|gcs::Integer|std::optional<(bool|int|long|long long|unsigned int|unsigned long|gcs::Integer)>)$")
LIST = re.compile(SCALAR.pattern + r"|^std::(vector|set|deque)<(bool|int|long|long long|unsigned int|unsigned long|gcs::Integer|gcs::SimpleIntegerVariableID|std::variant<gcs::SimpleIntegerVariableID, gcs::ViewOfIntegerVariableID, gcs::ConstantIntegerVariableID>)[,>]")


def ours(f):
    return (f.get("body") and not f.get("pattern") and f.file.startswith(("gcs/", "minizinc/", "xcsp/", "scp/")) and not f.file.endswith(("_test.cc", "_tests.cc"))
            and "/test" not in f.file and not f.file.startswith("gcs/presolvers/"))


def bodies(prog):
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if ours(f):
                yield f


def tracker_class(c):
    return strip_targs(c or "") in TRACKER


def primitive(n):
    """The search effect a call has by itself, or None."""
    if n["k"] == "CXXThrowExpr":
        return "fail" if any("TrackedPropagationFailed" in (y.get("f") or "") for y in walk(n)) else None
    if n["k"] not in CALLS or not n.get("f"):
        return None
    q = strip_targs(qcallee(n))
    own, _, name = q.rpartition("::")
    if own == STATE:
        return name if n["k"] == "CXXMemberCallExpr" and not n.get("const") and name not in QUIET_STATE else None
    if own in TRACKER:
        return name if name.startswith(("infer", "contradiction", "track", "record_firing")) else None
    if own == "gcs::innards::Propagators":
        return name if name in PROPAGATORS else None
    if own == "gcs::innards::RefinedWatchContext":
        return name if name in WATCHES else None
    if own in ("gcs::Constraint", "gcs::Presolver") and name in ("install", "run"):
        return name
    if own == "gcs::Problem" and n["k"] == "CXXMemberCallExpr" and not n.get("const"):
        return name
    return None


def brancher(f):
    return "ret" in f and bool(re.match(r"std::generator<(gcs::)?(VariableConditionFrom<|IntegerVariableCondition)", plain(f.type(f["ret"]))))


class Effects:
    """Which functions can have a search effect, through everything they call."""

    def __init__(self, prog):
        self.prog = prog
        self.index = props.Index(prog)
        self.calls, self.direct, self.inside = {}, {}, {}
        calls, self.reach = self.calls, set()
        for f in bodies(prog):
            out = calls.setdefault(f.key, set())
            for x in walk(f["body"]):
                if primitive(x) or x["k"] == "CoyieldExpr" and brancher(f):
                    self.reach.add(f.key)
                    self.direct.setdefault(f.key, set()).add(primitive(x) or "co_yield")
                elif x.get("f") and x["k"] in CALLS:
                    out.add(x["f"])
        rev = {}
        for a, bs in calls.items():
            for b in bs:
                rev.setdefault(b, set()).add(a)
        todo = list(self.reach)
        while todo:
            for a in rev.get(todo.pop(), ()):
                if a not in self.reach and not LAYER_RE.match(a):
                    self.reach.add(a)
                    todo.append(a)

    def within(self, key):
        """The effects, by name, that calling a function can have."""
        if key not in self.inside:
            seen, todo, out = {key}, [key], set()
            while todo:
                k = todo.pop()
                out |= self.direct.get(k, set())
                for c in self.calls.get(k, ()):
                    if c in self.reach and c not in seen:
                        seen.add(c)
                        todo.append(c)
            self.inside[key] = frozenset(out)
        return self.inside[key]

    def of(self, n, f):
        p = primitive(n)
        if n["k"] == "CoyieldExpr":
            return "co_yield" if brancher(f) else None
        if p:
            return None if p == "install_initialiser" and self.harmless_initialiser(n) else p
        if n["k"] in CALLS and n.get("f") in self.reach:
            return fname(n) or "call"
        return None

    def harmless_initialiser(self, n):
        cs = [c for c in n.get("c") or () if isinstance(c, dict)]
        l = next((y for y in walk(cs[0]) if y["k"] == "LambdaExpr"), None) if cs else None
        if l is None:
            return False
        bs = self.index.bodies(l.get("f")) or []
        if any(b.key in self.reach for b in bs):
            return False
        return not any(primitive(y) or y["k"] in CALLS and y.get("f") in self.reach for y in walk(l.get("body")))


def canon(n, depth=0):
    """An expression without positions, for comparing what two pieces of code do."""
    n = strip(n)
    if not isinstance(n, dict) or depth > 25:
        return None
    if n["k"] == "LambdaExpr":
        return ("lambda",)
    out = [n["k"]]
    for a in ("op", "n", "fnm", "v"):
        if a in n and not isinstance(n[a], dict):
            out.append(str(n[a]))
    for a in ("obj", "cond", "init"):
        if isinstance(n.get(a), dict):
            out.append(canon(n[a], depth + 1))
    for c in n.get("c") or ():
        if isinstance(c, dict):
            out.append(canon(c, depth + 1))
    return tuple(out)


def flat(sig):
    """The names of the effects in a piece of code."""
    out = set()
    for x in sig:
        if x[0] == "do":
            out |= x[4]
        elif x[0] == "leave":
            pass
        else:
            for y in x[1:]:
                if isinstance(y, tuple):
                    out |= flat(y)
    return out


class Function:
    """What, in one function, depends on whether a proof is written."""

    def __init__(self, an, f):
        self.an, self.f, self.prog, self.rep, self.eff = an, f, an.prog, an.rep, an.eff
        self.only_proof = self.whole()
        self.decls, self.once = {}, {}
        for x in walk(f["body"]):
            if x["k"] == "VarDecl" and x.get("d"):
                self.decls[x["d"]] = x
        for x in walk(f["body"]):
            t = self.target(x)
            if t is not None:
                r, _ = root_of(t)
                if isinstance(r, dict) and r["k"] == "DeclRefExpr":
                    self.once[r.get("d")] = self.once.get(r.get("d"), 0) + 1
        self.tainted = {}
        self.diffs = []

    def whole(self):
        """A function that is only called when a proof is written."""
        f = self.f
        if LAYER_RE.match(f.get("cls") or "") or LAYER_RE.match(f.key):
            return True
        for p in f["params"]:
            t = f.type(p["t"])
            if re.match(r"(const )?" + LAYER + r"( const)? &$", t.strip()):
                return True
            if "ReasonLiterals" in t and f.key.startswith("lambda@"):
                return True
        return False

    def ty(self, n):
        return self.f.type(n) if isinstance(n, dict) and "t" in n else ""

    def for_proof(self, t):
        if "std::function" in t or "(lambda" in t:
            return False
        t = plain(t).rstrip("&* ").replace("*const", "").strip()
        return bool(FOR_PROOF.search(t)) or self.an.only(t)

    # ------------------------------------------------ what is a test of whether a proof is written
    def tested(self, n, depth=0):
        n = strip(n)
        if not isinstance(n, dict) or depth > 12:
            return None
        k = n["k"]
        if k in ("UnaryOperator", "CXXOperatorCallExpr") and n.get("op") == "!":
            return self.tested(n["c"][0], depth + 1)
        if k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            return self.tested(n["c"][0], depth + 1) or self.tested(n["c"][1], depth + 1)
        if k in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp") and n.get("op") in ("==", "!="):
            for c in n["c"]:
                s = strip(c)
                if isinstance(s, dict) and (self.handle(self.ty(s)) or self.asks(s) or self.tested(s, depth + 1)):
                    return n
            return None
        if k == "ConditionalOperator":
            return next((t for t in (self.tested(c, depth + 1) for c in kids(n)) if t), None)
        if self.asks(n):
            return n
        if k == "CXXMemberCallExpr" and isinstance(n.get("obj"), dict) and fname(n) in ("operator bool", "has_value", "get"):
            return n if self.handle(self.ty(strip(n["obj"]))) else None
        if k in ("DeclRefExpr", "MemberExpr", "CallExpr", "CXXMemberCallExpr") and self.handle(self.ty(n)):
            return n
        if k == "MemberExpr" and n.get("d") in self.an.fields:
            return n
        if k == "DeclRefExpr":
            d = n.get("d")
            if d in self.tainted:
                return n
            v = self.decls.get(d)
            if v is not None and not self.once.get(d) and isinstance(v.get("init"), dict) and SCALAR.match(plain(self.ty(v)) or "-") and depth < 6:
                return self.tested(v["init"], depth + 2)
        return None

    def handle(self, t):
        """Something that is only there when a proof is written."""
        t = (t or "").replace("*const", "*").strip().rstrip("&").strip()
        if re.match(r"(const )?" + LAYER + r"( const)? ?\*$", t):
            return True
        return bool(re.match(r"(const )?std::(optional|unique_ptr|shared_ptr)<(const )?" + LAYER, t) or re.match(r"(const )?std::optional<(gcs::)?ProofOptions", t))

    def asks(self, n):
        if n["k"] in CALLS and n.get("f"):
            q = strip_targs(qcallee(n))
            return q.endswith("::want_reasons") and q.startswith("gcs::innards::") or q.endswith("ProofLogger::get_assertion_level")
        return False

    # ------------------------------------------------ what a piece of code does to the search
    def sig(self, n, depth=0):
        out = []
        self._sig(n, out, depth)
        return tuple(out)

    def _sig(self, n, out, depth):
        if not isinstance(n, dict) or n["k"] == "LambdaExpr":
            return
        k = n["k"]
        if k == "CompoundStmt":
            for c in n.get("c") or ():
                self._sig(c, out, depth)
            return
        if k == "IfStmt":
            for a in ("init", "var", "cond"):
                self._sig(n.get(a), out, depth)
            a, b = self.sig(n.get("then"), depth), self.sig(n.get("else"), depth)
            if a == b:
                out.extend(a)
            elif a or b:
                out.append(("if", a, b))
            return
        if k in LOOPS:
            for a in ("init", "range"):
                self._sig(n.get(a), out, depth)
            b = self.sig(n.get("cond"), depth) + self.sig(n.get("body"), depth) + self.sig(n.get("inc"), depth)
            if flat(b) or any(self.leaves_with(x, ("ReturnStmt", "CoreturnStmt")) for x in b):
                out.append(("loop", b))
            return
        if k == "SwitchStmt":
            b = self.sig(n.get("body"), depth)
            if flat(b) or any(self.leaves_with(x, ("ReturnStmt", "CoreturnStmt")) for x in b):
                out.append(("switch", b))
            return
        if k in EXITS:
            v = next(iter(kids(n)), None)
            self._sig(v, out, depth)
            out.append(("leave", k, canon(v) if isinstance(v, dict) else None))
            return
        if k == "CXXThrowExpr" and not primitive(n):
            out.append(("leave", k, None))
            return
        for c in kids(n):
            self._sig(c, out, depth)
        e = self.eff.of(n, self.f)
        if e:
            args = []
            given = params_of(n["f"]) or [] if n.get("f") else []
            ends = next((i for i, p in enumerate(given) if i and FOR_PROOF.search(plain(p)) and not LAYER_RE.search(p)), None)
            for i, a in enumerate(n.get("c") or ()):
                s = strip(a)
                if isinstance(s, dict) and s["k"] not in ("CXXDefaultArgExpr", "LambdaExpr"):
                    t = self.ty(s)
                    if ends is not None and i >= ends and tracker_class(strip_targs(qcallee(n)).rpartition("::")[0]):
                        break  # the justification and the reason, which only the proof is made from
                    if LAYER_RE.search(t) or self.for_proof(t) or "nullptr_t" in t or "nullopt_t" in t:
                        continue
                    args.append(canon(s))
            out.append(("do", "track" if e == "track_explicit" else e, n.get("f") if not primitive(n) else None, tuple(args), frozenset((e,)) if primitive(n) or n["k"] == "CoyieldExpr" else self.eff.within(n["f"])))
        elif k in CALLS:
            for a in n.get("c") or ():
                s = strip(a)
                if isinstance(s, dict) and s["k"] == "LambdaExpr" and isinstance(s.get("body"), dict):
                    ps = [self.f.type(p["t"]) for p in s.get("params") or () if "t" in p]
                    if any("ReasonLiterals" in t for t in ps):
                        continue
                    b = self.sig(s["body"], depth)
                    if flat(b):
                        out.append(("with", b))

    @staticmethod
    def leaves_with(x, which):
        if x[0] == "leave":
            return x[1] in which
        if x[0] == "do":
            return False
        return any(isinstance(y, tuple) and any(Function.leaves_with(z, which) for z in y if isinstance(z, tuple)) for y in x[1:] if isinstance(y, tuple))

    def normal(self, sig):
        """Template instances of one function that do the same are the same."""
        out = []
        for x in sig:
            if x[0] == "do":
                out.append((x[0], x[1], self.an.kind_of(x[2]), x[3], x[4]))
            elif x[0] == "leave":
                out.append(x)
            else:
                out.append((x[0],) + tuple(self.normal(y) for y in x[1:]))
        return tuple(out)

    # ------------------------------------------------ the walk
    @staticmethod
    def never_falls(n):
        if not isinstance(n, dict):
            return False
        if n["k"] in EXITS or n["k"] == "CXXThrowExpr":
            return True
        if n["k"] == "CompoundStmt":
            return any(Function.never_falls(c) for c in n.get("c") or ())
        if n["k"] == "IfStmt":
            return Function.never_falls(n.get("then")) and Function.never_falls(n.get("else"))
        if n["k"] in CALLS:
            q = strip_targs(qcallee(n))
            return q.endswith("::contradiction") and q.rpartition("::")[0] in TRACKER
        return False

    def run(self):
        for i in range(4):
            before = len(self.tainted)
            self.diffs = []
            self.block({"k": "CompoundStmt", "c": [self.f["body"]]}, True)
            if len(self.tainted) == before:
                break
        for a in self.diffs:
            self.an.difference(self, *a)

    def block(self, n, last):
        ss = [s for s in n.get("c") or () if isinstance(s, dict)]
        for i, s in enumerate(ss):
            self.stmt(s, ss[i + 1:], last)

    def stmt(self, n, rest, last):
        if not isinstance(n, dict):
            return
        k = n["k"]
        if k == "CompoundStmt":
            ss = [s for s in n.get("c") or () if isinstance(s, dict)]
            for i, s in enumerate(ss):
                self.stmt(s, ss[i + 1:] + (rest if not self.never_falls(n) else []), last and not rest)
            return
        if k == "IfStmt":
            test = None
            if not n.get("constexpr"):
                test = self.tested(n.get("cond"))
                if test is None and isinstance(n.get("var"), dict):
                    test = self.tested(n["var"].get("init")) or (n["var"] if self.handle(self.ty(n["var"])) else None)
            if test is not None:
                self.compare(n, test, n.get("then"), n.get("else"), rest, last)
        elif k in ("WhileStmt", "ForStmt", "DoStmt"):
            test = self.tested(n.get("cond"))
            if test is not None:
                b = self.normal(self.sig(n.get("body")))
                if b:
                    self.diffs.append((n, test, b, ()))
        elif k == "ConditionalOperator":
            c = n.get("cond") if isinstance(n.get("cond"), dict) else (n.get("c") or [None])[0]
            t = self.tested(c)
            if t is not None:
                alts = [x for x in kids(n) if x is not c]
                sg = [self.normal(self.sig(x)) for x in alts]
                if len(sg) == 2 and sg[0] != sg[1]:
                    self.diffs.append((n, t, sg[0], sg[1]))
        elif k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            t = self.tested(n["c"][0])
            if t is not None:
                b = self.normal(self.sig(n["c"][1]))
                if flat(b):
                    self.diffs.append((n, t, b, ()))
        e = self.eff.of(n, self.f)
        if e:
            if self.only_proof:
                self.diffs.append((n, n, (("do", e, None, (), frozenset((e,)) if primitive(n) or n["k"] == "CoyieldExpr" else self.eff.within(n["f"])),), ()))
            elif primitive(n):
                for a in n.get("c") or ():
                    s = strip(a)
                    if isinstance(s, dict) and s["k"] not in ("LambdaExpr", "CXXDefaultArgExpr") and not self.for_proof(self.ty(s)) and not LAYER_RE.search(self.ty(s)):
                        t = self.differs(s)
                        if t is not None:
                            self.an.value(self, n, e, t)
        if k == "VarDecl" and isinstance(n.get("init"), dict) and SCALAR.match(plain(self.ty(n)) or "-") and n.get("d"):
            t = self.differs(n["init"])
            if t is not None:
                self.tainted.setdefault(n["d"], t)
        tgt = self.target(n)
        if tgt is not None and self.only_proof and strip(tgt)["k"] == "MemberExpr" and LIST.match(plain(self.ty(strip(tgt))) or "-"):
            self.an.field(self, strip(tgt).get("d"), n)
        if tgt is not None and k != "CXXMemberCallExpr" and n.get("op") in ASSIGN:
            s = strip(tgt)
            if s["k"] == "DeclRefExpr" and SCALAR.match(plain(self.ty(s)) or "-"):
                t = self.differs(n["c"][1])
                if t is not None:
                    self.tainted.setdefault(s.get("d"), t)
        for c in kids(n):
            if k == "LambdaExpr":
                self.stmt(c, [], True)
            elif k in LOOPS:
                self.stmt(c, [], True)
            elif k == "IfStmt" and c is not n.get("cond"):
                self.stmt(c, rest, last)
            else:
                self.stmt(c, [], False)

    def compare(self, n, test, a, b, rest, last):
        la, lb = self.never_falls(a), self.never_falls(b)
        ra = [a] if la or not (la or lb or self.may_leave(a) or self.may_leave(b)) else [a] + rest
        rb = [b] if lb or not (la or lb or self.may_leave(a) or self.may_leave(b)) else [b] + rest
        sa = self.tidy(self.normal(self.sig({"k": "CompoundStmt", "c": ra})), last)
        sb = self.tidy(self.normal(self.sig({"k": "CompoundStmt", "c": rb})), last)
        self.an.branches += 1
        if sa != sb:
            self.diffs.append((n, test, sa, sb))
        else:
            self.an.rep.ok("same-effects", "%s %s" % (self.f.at(n), props.context(self.f)))
            self.an.doing += bool(flat(sa))
        # plain values set on one side only
        ta, tb = self.sets(a), self.sets(b)
        for d in set(ta) | set(tb):
            if ta.get(d) != tb.get(d):
                if d.startswith("$"):
                    self.tainted.setdefault(d, test)
                else:
                    self.an.field(self, d, test)

    @staticmethod
    def tidy(sig, last):
        sig = list(sig)
        while sig and sig[-1][0] == "leave" and sig[-1][2] is None and sig[-1][1] != "CXXThrowExpr" and last:
            sig.pop()
        return tuple(sig)

    def may_leave(self, n):
        stack = [(n, False, False)]
        while stack:
            x, loop, sw = stack.pop()
            if not isinstance(x, dict) or x["k"] == "LambdaExpr":
                continue
            k = x["k"]
            if k in EXITS and not (k == "BreakStmt" and (loop or sw) or k == "ContinueStmt" and loop):
                return True
            stack.extend((c, loop or k in LOOPS, sw or k == "SwitchStmt") for c in kids(x))
        return False

    @staticmethod
    def target(n):
        k, op = n["k"], n.get("op")
        if k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and op in ASSIGN:
            return n["c"][0]
        if k in ("UnaryOperator", "CXXOperatorCallExpr") and op in ("++", "--"):
            return n["c"][0]
        if k == "CXXMemberCallExpr" and not n.get("const") and fname(n) in CHANGES:
            return n.get("obj")
        return None

    def sets(self, n):
        """Plain local values given a value in a piece of code that does not declare them."""
        own, out = set(), {}
        if not isinstance(n, dict):
            return out
        for x in walk(n):
            if x["k"] == "VarDecl":
                own.add(x.get("d"))
        stack = [n]
        while stack:
            x = stack.pop()
            if not isinstance(x, dict):
                continue
            t = self.target(x) if x["k"] != "CXXMemberCallExpr" else None
            if t is not None:
                s = strip(t)
                if s["k"] in ("DeclRefExpr", "MemberExpr") and s.get("d") and s.get("d") not in own and SCALAR.match(plain(self.ty(s)) or "-"):
                    out.setdefault(s["d"], []).append((x.get("op"), canon(x["c"][1]) if len(x.get("c") or ()) > 1 else None))
            if x["k"] != "LambdaExpr":
                stack.extend(kids(x))
        return out

    def differs(self, n):
        """An expression whose value depends on whether a proof is written."""
        stack = [n]
        while stack:
            x = stack.pop()
            if not isinstance(x, dict) or x["k"] == "LambdaExpr":
                continue
            s = strip(x)
            if isinstance(s, dict) and s is not n and "t" in s and s["k"] not in ("DeclRefExpr", "MemberExpr") and self.for_proof(self.ty(s)):
                continue
            if x["k"] == "ConditionalOperator":
                c = x.get("cond") if isinstance(x.get("cond"), dict) else (x.get("c") or [None])[0]
                if self.tested(c) is not None:
                    return x
            if x["k"] == "DeclRefExpr" and x.get("d") in self.tainted or x["k"] == "MemberExpr" and x.get("d") in self.an.fields:
                return x
            if self.asks(x):
                return x
            if x["k"] == "DeclRefExpr" and self.tested(x) is not None and SCALAR.match(plain(self.ty(x)) or "-"):
                return x
            stack.extend(kids(x))
        return None


class Analysis:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.eff = Effects(prog)
        self.memo, self.kinds, self.busy = {}, {}, set()
        self.branches = self.doing = self.functions = self.inits = self.observers = 0
        self.fields, self.stores = {}, {}

    def only(self, t):
        if t not in self.memo:
            self.memo[t] = proof_only(self.prog, t)
        return self.memo[t]

    def kind_of(self, key):
        """What a called function does, for telling its template instances apart only if they differ."""
        if key is None:
            return None
        if key in self.kinds:
            return self.kinds[key]
        base = strip_targs(key.split("(")[0] if not key.startswith("(") else "(" + key[1:].split("(")[0])
        if key in self.busy or key not in self.prog.insts:
            return base
        self.busy.add(key)
        rec = self.prog.insts[key]
        fn = Function(self, rec)
        self.kinds[key] = (base, tuple(sorted(flat(fn.sig(rec["body"])))))
        self.busy.discard(key)
        return self.kinds[key]

    def difference(self, fn, n, test, a, b):
        f = fn.f
        fa, fb = flat(a), flat(b)
        at = f.at(n)
        ctx = props.context(f)
        if tracker_class(f.get("cls")):
            return
        if os.environ.get("SA_TRACE") == "2": print(at, "\n   A", a, "\n   B", b)
        names = sorted((fa | fb) - (fa & fb)) or sorted(fa | fb)
        fails = {"contradiction", "fail"}
        tracked = {x for x in fa | fb if x.startswith("infer") or x in fails}
        if any(self.gives_up(s) for s in (a, b)):
            self.rep.undecided("same-effects", at, "%s|%s" % (ctx, ",".join(names)), "an exception ends one of the two ways of doing this, with and without a proof")
            return
        if fn.only_proof and names:
            self.rep.bad("only-when-logging", at, "%s|%s" % (ctx, ",".join(names)), "'%s' is done here, in code that only runs when a proof is being written" % ", ".join(names))
            return
        if fn.only_proof:
            return
        if not fa and not fb:
            # leaving early, and with what
            ret = lambda s: [x for x in s if x[0] == "leave"] or [x for x in s]
            if f.get("ret") is not None and fn.for_proof(plain(f.type(f["ret"]))):
                return
            self.leaving(fn, n, test, a, b)
            return
        if fa == fb and self.contrary(a, b):
            self.rep.bad("same-arguments", at, "%s|%s" % (ctx, ",".join(names)), "what '%s' is given here differs with and without a proof (decided at %s)" % (", ".join(names), f.at(test)))
            return
        more = fa - fb if fb < fa else fb - fa if fa < fb else set()
        if (fa & tracked and fb & tracked) and any(x.startswith("infer") for x in more):
            self.rep.bad("same-effects", at, "%s|%s" % (ctx, ",".join(sorted(more))), "'%s' is done as well here, depending on whether a proof is being written (decided at %s)" % (", ".join(sorted(more)), f.at(test)))
            return
        if fa and fb and fa != fb and (fa & tracked and fb & tracked):
            self.rep.undecided("same-effects", at, "%s|%s" % (ctx, ",".join(names)), "the two ways of doing this, with and without a proof, infer things that may or may not be the same")
            return
        if fa == fb:
            self.rep.undecided("same-effects", at, "%s|%s" % (ctx, ",".join(names)), "the two ways of doing this, with and without a proof, could not be told to be the same")
            return
        if (fa ^ fb) <= fails:
            self.rep.undecided("same-effects", at, "%s|%s" % (ctx, ",".join(names)), "a failure is only reported here depending on whether a proof is being written; it may be implied by what is inferred anyway")
            return
        self.rep.bad("same-effects", at, "%s|%s" % (ctx, ",".join(names)), "'%s' is only done here depending on whether a proof is being written (decided at %s)" % (", ".join(names), f.at(test)))

    @staticmethod
    def contrary(a, b):
        """The same, except for an operator or a constant in what an effect is given."""
        found = []

        def same(x, y, args):
            if x == y:
                return True
            if not isinstance(x, tuple) or not isinstance(y, tuple) or len(x) != len(y):
                return False
            if args and x and isinstance(x[0], str) and x[0] == y[0] and x[0][0].isupper():
                strs = [(p, q) for p, q in zip(x[1:], y[1:]) if isinstance(p, str) and p != q]
                if strs:
                    if x[0] == "DeclRefExpr" or x[0] == "MemberExpr" or x[0] in CALLS and not x[0].startswith("CXXOperator"):
                        return False
                    found.append(strs)
            elif args is False and isinstance(x[0], str) and x[0] != y[0]:
                return False
            return all(same(p, q, args or (x[0] == "do" and i == 3)) for i, (p, q) in enumerate(zip(x, y)) if isinstance(p, tuple) or isinstance(q, tuple))
        return same(tuple(a), tuple(b), False) and bool(found)

    @staticmethod
    def gives_up(s):
        return bool(s) and s[-1][0] == "leave" and s[-1][1] == "CXXThrowExpr"

    def leaving(self, fn, n, test, a, b):
        f = fn.f
        la, lb = [x for x in a if x[0] == "leave"], [x for x in b if x[0] == "leave"]
        vals = {x[2] for x in la + lb if x[1] in ("ReturnStmt", "CoreturnStmt") and x[2] is not None}
        if len(vals) > 1 and len(vals & STATES) == len(vals) or (len(vals) > 1 and any("CXXBoolLiteralExpr" in str(v) for v in vals) and self.matters(f)):
            self.rep.bad("same-result", f.at(n), "%s|return" % props.context(f), "what is returned here depends on whether a proof is being written (decided at %s)" % f.at(test))
            return
        if a or b:
            self.rep.undecided("same-result", f.at(n), "%s|return" % props.context(f), "this code is left in different ways with and without a proof")

    def field(self, fn, d, test):
        """A plain value kept in an object, that is only set when a proof is written."""
        own = (d or "").rpartition("::")[0]
        if own and not LAYER_RE.match(own) and not tracker_class(own) and not self.only(own) and not own.startswith("std::"):
            self.fields.setdefault(d, fn.f.at(test))

    def matters(self, f):
        return f.key in self.eff.reach

    def value(self, fn, n, e, t):
        f = fn.f
        if tracker_class(f.get("cls")):
            return
        self.rep.bad("same-arguments", f.at(n), "%s|%s" % (props.context(f), e), "what is given to '%s' here depends on whether a proof is being written (%s)" % (e, f.at(t)))

    def writes_fields(self, f):
        if f.key not in self.stores:
            self.stores[f.key] = any(strip(t)["k"] == "MemberExpr" and LIST.match(plain(f.type(strip(t))) or "-")
                                     for t in (Function.target(x) for x in walk(f["body"])) if t is not None and isinstance(strip(t), dict) and "t" in strip(t))
        return self.stores[f.key]

    def run(self):
        # what is kept in objects, first
        rep, self.rep = self.rep, Report("C03")
        known = -1
        while known < len(self.fields):
            known = len(self.fields)
            for f in bodies(self.prog):
                if self.writes_fields(f):
                    Function(self, f).run()
        self.rep, self.branches, self.doing = rep, 0, 0
        for f in bodies(self.prog):
            self.functions += 1
            Function(self, f).run()
        self.observe()

    def observe(self):
        """Observers of conflicts are given a reason that is only complete when a proof wants one, so they must not look at it."""
        for f in bodies(self.prog):
            if not any("gcs::innards::ConflictObserver::" in strip_targs(o) for o in f.get("overrides") or ()):
                continue
            ps = {p.get("d") for p in f["params"] if p.get("d") and "Reason" in f.type(p["t"])}
            self.observers += 1
            use = next((x for x in walk(f["body"]) if x["k"] == "DeclRefExpr" and x.get("d") in ps), None)
            self.rep.check(use is None, "observer", f.at(use or f["body"]), props.context(f), "this observer of conflicts looks at the reason, which is only made when a proof is being written")


RULE = """For every branch in the library, and in the front ends, that is decided by whether a proof is being written (a logger, proof model or proof options pointer or optional is tested, want_reasons() or
get_assertion_level() is asked, or a plain local value set from one of these is tested), the two ways of going on must do the same to the search: the same inferences, guesses, backtracks, propagator
installations, watches and branches, with the same arguments, in the same order and under the same conditions, as far as their end.  Code that only runs when a proof is written must do none of these, and
none of them may be given a value that depends on whether one is written.  Observers of conflicts must not look at the reason they are given."""
EXPLANATION = """Syntax-directed comparison, over the type-checked program, of the two sides of each test of proof logging, with an effect analysis over the whole call graph that says which calls can change the state
of the search.  Values of types that only the proof is made from (loggers, proof lines, reasons, justifications, hints) are left out of the comparison.  Presolvers, which may decline to add a redundant
constraint they could not justify, are exempt; the inference trackers, whose two forms are compared in C08, are exempt here."""


def run():
    rep = Report("C03", "other", rule=RULE, explanation=EXPLANATION)
    prog = ir.Program(ir.lib_units())
    a = Analysis(prog, rep)
    a.run()
    rep.floor("branches on whether a proof is written", a.branches, 700)
    rep.floor("such branches with effects on the search on both sides", a.doing, 2)
    rep.floor("functions with effects on the search", len(a.eff.reach), 800)
    rep.floor("observers of conflicts", a.observers, 1)
    rep.extra["functions_analysed"] = a.functions
    if os.environ.get("SA_TRACE"):
        print(a.fields)
        print(a.branches, a.doing, len(a.eff.reach), a.observers)
    return rep.finish(prog)


if __name__ == "__main__":
    main(run)
