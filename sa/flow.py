"""Path-sensitive exploration of function bodies over a finite abstract state.

A state is an environment (what is known about boolean, enumeration, pointer and
optional-like places, plus the remembered outcome of tests that were made and whose
operands have not changed since) and a rule-specific typestate.  Loops run to a
fixpoint over the set of states; local closures and helper functions are inlined.
Rules subclass Engine and override the hooks."""
import re

from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, statements, CALLS, CASTS
from c17 import segments, split_args, plain, Flow as _Leave


class TooHard(Exception):
    pass


NULL = ("c", None)
NN = ("nn",)
TRUE, FALSE = ("c", True), ("c", False)


class St:
    __slots__ = ("env", "ts", "_k", "trace")

    def __init__(self, env=None, ts=(), trace=()):
        self.env, self.ts, self._k, self.trace = env or {}, ts, None, trace

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.env.items()), self.ts)
        return self._k

    def with_ts(self, ts):
        return St(self.env, ts, self.trace)

    def at(self, note):
        return St(self.env, self.ts, (self.trace + (note,))[-12:])


def dedup(states):
    seen, out = set(), []
    for s in states:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def dedup_out(outs):
    seen, res = set(), []
    for o in outs:
        k = (o[0], o[1].key(), o[2])
        if k not in seen:
            seen.add(k)
            res.append(o)
    return res


def params_of(key):
    """Parameter types in a function key."""
    if not key:
        return None
    k = strip_paren_key(key)
    return k


def strip_paren_key(key):
    depth, i = 0, len(key) - 1
    j = key.rfind(")")
    if j < 0:
        return None
    i = j
    while i >= 0:
        if key[i] == ")":
            depth += 1
        elif key[i] == "(":
            depth -= 1
            if depth == 0:
                break
        i -= 1
    if i < 0:
        return None
    inner = key[i + 1:j]
    return split_args(inner) if inner.strip() else []


def writes_through(t):
    """The parameter type lets the callee change its argument."""
    t = t.strip()
    if t.endswith("&&"):
        return True
    if t.endswith("&"):
        return not (t.startswith("const ") or t[:-1].rstrip().endswith(" const") or t[:-1].rstrip().endswith("*const"))
    if t.endswith("*") or t.endswith("*const"):
        return not t.startswith("const ")
    return False


SMART = ("std::unique_ptr", "std::shared_ptr", "std::optional", "std::function", "std::weak_ptr", "std::move_only_function")


class Engine:
    cap = 6000            # states at one program point
    max_depth = 12

    def __init__(self, prog):
        self.prog = prog
        self.stack = []
        self.leave = _Leave(prog)
        self.deps = {}
        self.calls_seen = 0
        self.fns_seen = set()

    # ---- hooks ---------------------------------------------------------------
    def on_call(self, fr, n, st, name, key, args):
        """None: default handling.  Otherwise [(kind, state, value)], kind 'val' or 'throw'."""
        return None

    def on_write(self, fr, n, st, key, val):
        """A place receives a value; returns the state to go on with."""
        return st

    def on_iter(self, fr, n, st):
        return [st]

    def on_other(self, fr, n, st):
        return None

    def should_inline(self, rec, n):
        """A file-local helper."""
        return rec.key.startswith("(anonymous namespace)") or "(anonymous namespace)" in rec.key.split("(", 2)[0] + rec.key[:40]

    def volatile(self, n):
        """A call whose result may differ each time it is asked."""
        q = qcallee(n)
        return strip_targs(q).startswith("std::atomic")

    # ---- places --------------------------------------------------------------
    def place(self, fr, n, st, depth=0):
        n = self.peel(n)
        if not isinstance(n, dict) or depth > 12:
            return None
        k = n["k"]
        if k == "DeclRefExpr":
            if n.get("fn"):
                return None
            d = n["d"]
            v = st.env.get(d)
            if v is not None and v[0] == "ref":
                return v[1]
            return d
        if k == "CXXThisExpr":
            return fr["this"]
        if k in ("MemberExpr", "CXXDependentScopeMemberExpr"):
            if n.get("fn"):
                return None
            b = (n.get("c") or [None])[0]
            base = fr["this"] if b is None else self.place(fr, b, st, depth + 1)
            if base is None:
                return None
            v = st.env.get(base)
            if v is not None and v[0] == "addr":
                base = v[1]
            key = base + "." + n["n"]
            v = st.env.get(key)
            if v is not None and v[0] == "ref":
                return v[1]
            return key
        if k == "CXXOperatorCallExpr" and n.get("op") == "->" and n.get("c"):
            return self.place(fr, n["c"][0], st, depth + 1)
        if (k == "CXXOperatorCallExpr" and n.get("op") == "*" and len(n.get("c") or ()) == 1) or (k == "UnaryOperator" and n.get("op") == "*"):
            b = self.place(fr, n["c"][0], st, depth + 1)
            if b is None:
                return None
            v = st.env.get(b)
            if v is not None and v[0] == "addr":
                return v[1]
            return b + ".*"
        if k == "CXXMemberCallExpr" and fname(n) in ("value", "get") and len(n.get("c") or ()) == 0 and isinstance(n.get("obj"), dict):
            b = self.place(fr, n["obj"], st, depth + 1)
            return None if b is None else (b if fname(n) == "get" else b + ".*")
        if k in ("ArraySubscriptExpr",) or k == "CXXOperatorCallExpr" and n.get("op") == "[]" or k == "CXXMemberCallExpr" and fname(n) in ("at", "back", "front"):
            b = n.get("obj") if k == "CXXMemberCallExpr" else n["c"][0]
            b = self.place(fr, b, st, depth + 1)
            return None if b is None else b + ".[]"
        return None

    def peel(self, n):
        while isinstance(n, dict):
            k, c = n["k"], n.get("c") or []
            if k in ("Temp", "ParenExpr", "ExprWithCleanups", "ImplicitCastExpr") and len(c) == 1:
                n = c[0]
            elif k in CASTS and len(c) == 1:
                n = c[0]
            elif k in ("CXXConstructExpr",) and (n.get("copy") or n.get("move")) and len(c) == 1:
                n = c[0]
            elif k == "CallExpr" and qcallee(n) in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref") and len(c) == 1:
                n = c[0]
            else:
                return n
        return n

    def kill(self, st, key):
        """Forgets everything known about a place and whatever was concluded from it."""
        pre = key + "."
        env = {k: v for k, v in st.env.items() if not (k == key and v[0] != "ref" or k.startswith(pre) or
                                                      (k[0] == "?" and any(self.touches(key, d) for d in self.deps.get(k, ()))))}
        return St(env, st.ts, st.trace)

    @staticmethod
    def touches(key, dep):
        return dep == key or dep.startswith(key + ".") or key.startswith(dep + ".")

    def write(self, fr, n, st, key, val):
        st = self.on_write(fr, n, st, key, val)
        s = self.kill(st, key)
        if val is not None and "[]" not in key:
            env = dict(s.env)
            env[key] = val
            s = St(env, s.ts, s.trace)
        return s

    def bind(self, st, d, val):
        s = St({k: v for k, v in st.env.items() if not (k == d or k.startswith(d + ".") or (k[0] == "?" and any(self.touches(d, x) for x in self.deps.get(k, ()))))}, st.ts, st.trace)
        if val is not None:
            s.env[d] = val
        return s

    def get(self, st, key):
        v = st.env.get(key)
        if v is not None and v[0] == "ref":
            return st.env.get(v[1])
        return v

    # ---- running functions ---------------------------------------------------
    def run(self, rec, st, this="this", args=None, closure=None):
        """Outcomes of a function body: (kind, state, value) with kind return/throw."""
        if len(self.stack) >= self.max_depth or rec.key in self.stack:
            raise TooHard("call depth at " + rec.key[:80])
        self.fns_seen.add(rec.key)
        self.stack.append(rec.key)
        try:
            fr = dict(f=rec, this=this, out=[])
            for i, p in enumerate(rec["params"]):
                st = self.bind(st, p["d"], args[i] if args and i < len(args) else None)
            res = []
            for i in rec.get("inits") or ():
                if isinstance(i.get("e"), dict):
                    nxt = []
                    for s in [st]:
                        for s2, v in self.expr(fr, i["e"], s):
                            nxt.append(self.write(fr, i["e"], s2, this + "." + i["n"], v) if i.get("n") else s2)
                    st = nxt[0] if len(nxt) == 1 else nxt[0] if nxt else st
            for kind, s, v in self.stmt(fr, rec.get("body"), [st]):
                if kind == "fall":
                    res.append(("return", s, None))
                elif kind in ("return", "throw"):
                    res.append((kind, s, v))
                else:
                    raise TooHard("stray " + kind)
            res += fr["out"]
            return dedup_out(res)
        finally:
            self.stack.pop()

    def seq(self, fr, ss, states):
        outs, cur = [], states
        for s in ss:
            nxt = []
            for o in self.stmt(fr, s, cur):
                (nxt if o[0] == "fall" else outs).append(o)
            cur = dedup([o[1] for o in nxt])
            if len(cur) > self.cap:
                raise TooHard("too many states")
            if not cur:
                break
        return outs + [("fall", s, None) for s in cur]

    def scope_end(self, outs, decls):
        """Forgets the variables of a block that has been left."""
        ds = set()
        for d in decls:
            if isinstance(d, dict):
                if d.get("d") and not d.get("static"):
                    ds.add(d["d"])
                for b in d.get("bind") or ():
                    if isinstance(b, dict) and b.get("d"):
                        ds.add(b["d"])
        if not ds:
            return outs
        res = []
        for kind, s, v in outs:
            if kind in ("fall", "continue", "break"):
                env = {k: x for k, x in s.env.items() if k.split(".", 1)[0] not in ds and not (k[0] == "?" and any(y.split(".", 1)[0] in ds for y in self.deps.get(k, ())))}
                if len(env) != len(s.env):
                    s = St(env, s.ts, s.trace)
            res.append((kind, s, v))
        return dedup_out(res)

    def stmt(self, fr, n, states):
        if n is None:
            return [("fall", s, None) for s in states]
        k = n["k"]
        if k == "CompoundStmt":
            ss = [c for c in n.get("c") or () if isinstance(c, dict)]
            return self.scope_end(self.seq(fr, ss, states), [d for c in ss if c["k"] == "DeclStmt" for d in c.get("c") or ()])
        if k in ("AttributedStmt", "LabelStmt"):
            return self.seq(fr, [c for c in kids(n)], states)
        outs = []
        if k == "DeclStmt":
            cur = states
            for d in n.get("c") or ():
                if isinstance(d, dict):
                    cur = dedup([s2 for s in cur for s2 in self.declare(fr, d, s)])
            return [("fall", s, None) for s in cur]
        if k == "ReturnStmt" or k == "CoreturnStmt":
            e = next(iter(kids(n)), None)
            for s in states:
                if e is None:
                    outs.append(("return", s, None))
                else:
                    for s2, v in self.expr(fr, e, s):
                        outs.append(("return", s2, v))
            return dedup_out(outs)
        if k == "BreakStmt":
            return [("break", s, None) for s in states]
        if k == "ContinueStmt":
            return [("continue", s, None) for s in states]
        if k == "IfStmt":
            if n.get("constexpr") and "ceval" in n:
                b = n.get("then") if n["ceval"] else n.get("else")
                return self.stmt(fr, b, states)
            cur = states
            if isinstance(n.get("init"), dict):
                outs0 = self.stmt(fr, n["init"], cur)
                outs += [o for o in outs0 if o[0] != "fall"]
                cur = [o[1] for o in outs0 if o[0] == "fall"]
            if isinstance(n.get("var"), dict):
                cur = dedup([s2 for s in cur for s2 in self.declare(fr, n["var"], s)])
            t, e = [], []
            for s in cur:
                if n.get("cond") is None and isinstance(n.get("var"), dict):
                    r = self.test_place(fr, n["var"]["d"], s, "ptr")
                else:
                    r = self.cond(fr, n["cond"], s)
                for s2, b in r:
                    (t if b else e).append(s2)
            outs += self.stmt(fr, n.get("then"), dedup(t)) if t else []
            outs += self.stmt(fr, n.get("else"), dedup(e)) if e else []
            return dedup_out(outs)
        if k in ("WhileStmt", "ForStmt", "DoStmt"):
            return self.loop(fr, n, states)
        if k == "CXXForRangeStmt":
            return self.range_for(fr, n, states)
        if k == "SwitchStmt":
            return self.switch(fr, n, states)
        if k == "CXXTryStmt":
            body = (n.get("c") or [None])[0] or n.get("body")
            saved, fr["out"] = fr["out"], []
            r = self.stmt(fr, body, states)
            thrown = [o for o in r if o[0] == "throw"] + fr["out"]
            fr["out"] = saved
            outs = [o for o in r if o[0] != "throw"]
            for o in dedup_out(thrown):
                outs += self.handle(fr, n, o)
            return dedup_out(outs)
        if k == "NullStmt":
            return [("fall", s, None) for s in states]
        if k in ("CaseStmt", "DefaultStmt"):
            return self.stmt(fr, n.get("body"), states)
        if k == "GotoStmt":
            raise TooHard("goto")
        for s in states:
            for s2, v in self.expr(fr, n, s):
                if v == ("bottom",):
                    continue
                outs.append(("fall", s2, None))
        return dedup_out(outs)

    def handle(self, fr, n, o):
        t = o[2][1] if o[2] else ""
        for h in n.get("handlers") or ():
            ht = h.get("ct") or h.get("t")
            ht = plain(fr["f"].type(ht)) if isinstance(ht, int) else plain(ht or "")
            if not ht and isinstance(h.get("var"), dict):
                ht = plain(fr["f"].type(h["var"]))
            if not ht or ht == "..." or self.derives(t, ht):
                body = h.get("body") or (h.get("c") or [None])[-1]
                saved = fr.get("rethrow")
                fr["rethrow"] = o[2]
                r = self.stmt(fr, body, [o[1]])
                fr["rethrow"] = saved
                return r
        return [o]

    def derives(self, t, base):
        seen, work = set(), [t]
        while work:
            x = work.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            c = self.prog.classes.get(x)
            if c:
                for b in c.get("bases") or ():
                    work.append(plain(b if isinstance(b, str) else c.type(b.get("t")) if isinstance(b.get("t"), int) else b.get("n") or b.get("t") or ""))
        return False

    def declare(self, fr, d, st):
        if d.get("k") != "VarDecl":
            return [st]
        if d.get("static"):
            return [self.bind(st, d["d"], None)]
        init = d.get("init")
        if not isinstance(init, dict):
            return [self.bind(st, d["d"], None)]
        t = fr["f"].type(d) if "t" in d else ""
        if t.rstrip().endswith("&"):
            p = self.place(fr, init, st)
            if p is not None:
                res = []
                for s, v in self.effects(fr, init, st):
                    res.append(self.bind(s, d["d"], ("ref", p)) if p != d["d"] else s)
                return res
        res = []
        vals = []
        pt = plain(t)
        for s, v in self.expr(fr, init, st):
            src = self.place(fr, init, s) if v is None and (pt == "bool" or pt.startswith("std::optional") or pt.endswith("*")) else None
            if src is not None and src != d["d"] and "[]" not in src and not self.volatile(self.peel(init)):
                # a copy of something undetermined: settle it, so that both agree
                for s2, b in self.test_place(fr, src, s, "bool" if pt == "bool" else "ptr"):
                    vals.append((s2, self.get(s2, src)))
            else:
                vals.append((s, v))
        for s, v in vals:
            if v == ("bottom",):
                continue
            s2 = self.bind(s, d["d"], v)
            s2 = self.on_write(fr, d, s2, d["d"], v)
            src = self.place(fr, init, s)
            if src is not None and src != d["d"]:
                extra = {d["d"] + k[len(src):]: x for k, x in s.env.items() if k.startswith(src + ".")}
                if extra:
                    s2 = St({**s2.env, **extra}, s2.ts, s2.trace)
            for f in self.fields(fr, init):
                pass
            res.append(s2)
        return res

    def fields(self, fr, init):
        return ()

    def effects(self, fr, n, st):
        """Evaluates an lvalue expression for its side effects only."""
        return self.expr(fr, n, st)

    def loop(self, fr, n, states):
        outs = []
        cur = states
        if isinstance(n.get("init"), dict):
            r = self.stmt(fr, n["init"], cur)
            outs += [o for o in r if o[0] != "fall"]
            cur = [o[1] for o in r if o[0] == "fall"]
        heads, exits = set(), []
        work = list(cur)
        first = n["k"] == "DoStmt"
        todo_body = list(cur) if first else []
        if first:
            work = []
        bodies = set()

        def do_body(s):
            if s.key() in bodies:
                return
            bodies.add(s.key())
            if len(bodies) > self.cap:
                raise TooHard("loop states")
            for o in self.stmt(fr, n.get("body"), [s]):
                if o[0] in ("fall", "continue"):
                    if isinstance(n.get("inc"), dict):
                        for s2, _ in self.expr(fr, n["inc"], o[1]):
                            work.append(s2)
                    else:
                        work.append(o[1])
                elif o[0] == "break":
                    exits.append(o[1])
                else:
                    outs.append(o)

        while work or todo_body:
            if todo_body:
                do_body(todo_body.pop())
                continue
            s = work.pop()
            if s.key() in heads:
                continue
            heads.add(s.key())
            if len(heads) > self.cap:
                raise TooHard("loop states")
            if n.get("cond") is None:
                res = [(s, True)]
            else:
                if isinstance(n.get("var"), dict):
                    ss = self.declare(fr, n["var"], s)
                else:
                    ss = [s]
                res = [x for s1 in ss for x in self.cond(fr, n["cond"], s1)]
            for s2, b in res:
                if b:
                    do_body(s2)
                else:
                    exits.append(s2)
        ends = dedup_out(outs + [("fall", s, None) for s in dedup(exits)])
        init = n.get("init")
        return self.scope_end(ends, (init.get("c") or ()) if isinstance(init, dict) and init["k"] == "DeclStmt" else ())

    def range_for(self, fr, n, states):
        outs, exits = [], []
        cur = states
        if isinstance(n.get("init"), dict):
            r = self.stmt(fr, n["init"], cur)
            cur = [o[1] for o in r if o[0] == "fall"]
        if isinstance(n.get("range"), dict):
            cur = dedup([s2 for s in cur for s2, _ in self.expr(fr, n["range"], s)])
        heads, work = set(), list(cur)
        while work:
            s = work.pop()
            if s.key() in heads:
                continue
            heads.add(s.key())
            if len(heads) > self.cap:
                raise TooHard("loop states")
            exits.append(s)
            s = self.bind(s, n["var"]["d"], None) if isinstance(n.get("var"), dict) and n["var"].get("d") else s
            for b in (n.get("var") or {}).get("bind") or ():
                if isinstance(b, dict) and b.get("d"):
                    s = self.bind(s, b["d"], None)
            for s1 in self.on_iter(fr, n, s):
                for o in self.stmt(fr, n.get("body"), [s1]):
                    if o[0] in ("fall", "continue"):
                        work.append(o[1])
                    elif o[0] == "break":
                        exits.append(o[1])
                    else:
                        outs.append(o)
        init = n.get("init")
        return self.scope_end(dedup_out(outs + [("fall", s, None) for s in dedup(exits)]),
                              [n.get("var")] + list((init.get("c") or ()) if isinstance(init, dict) and init["k"] == "DeclStmt" else ()))

    def universe(self, fr, node):
        t = plain(fr["f"].type(node)) if isinstance(node, dict) and "t" in node else ""
        e = self.prog.enums.get(t)
        return [v["n"] for v in e["values"]] if e else None

    def switch(self, fr, n, states):
        outs = []
        segs = segments(n)
        uni = self.universe(fr, n.get("cond"))
        cur = states
        if isinstance(n.get("init"), dict):
            cur = [o[1] for o in self.stmt(fr, n["init"], cur) if o[0] == "fall"]
        for s in cur:
            for s1, v in self.expr(fr, n["cond"], s):
                p = self.place(fr, n["cond"], s1)
                entries = []
                named = set()
                has_default = False
                for i, (labels, _) in enumerate(segs):
                    for l in labels:
                        if l is None:
                            has_default = True
                        else:
                            lv = self.const(l)
                            named.add(lv[1] if lv else None)
                for i, (labels, _) in enumerate(segs):
                    for l in labels:
                        if l is None:
                            r = self.exclude(s1, p, v, named, uni)
                        else:
                            lv = self.const(l)
                            r = self.refine(s1, p, v, lv)
                        if r is not None:
                            entries.append((i, r))
                if not has_default:
                    r = self.exclude(s1, p, v, named, uni)
                    if r is not None:
                        outs.append(("fall", r, None))
                for i, r in entries:
                    live = [r]
                    for _, ss in segs[i:]:
                        res = self.seq(fr, ss, live)
                        live = []
                        for o in res:
                            if o[0] == "fall":
                                live.append(o[1])
                            elif o[0] == "break":
                                outs.append(("fall", o[1], None))
                            else:
                                outs.append(o)
                        if not live:
                            break
                    outs += [("fall", x, None) for x in live]
        return dedup_out(outs)

    def refine(self, st, p, v, c):
        """State in which the value equals the constant, or None."""
        if v is not None and c is not None:
            if v[0] == "c" and v != c:
                return None
            if v[0] == "ne" and c[1] in v[1]:
                return None
            if v[0] == "nn" and c == NULL:
                return None
        if p is not None and c is not None and "[]" not in p and (v is None or v[0] in ("ne", "nn", "c")):
            env = dict(st.env)
            env[p] = c
            return St(env, st.ts, st.trace)
        return st

    def exclude(self, st, p, v, named, uni):
        if v is not None and v[0] == "c":
            return None if v[1] in named else st
        have = set(v[1]) if v is not None and v[0] == "ne" else set()
        have |= {x for x in named if x is not None}
        if uni is not None:
            rest = [u for u in uni if u not in have]
            if not rest:
                return None
            if len(rest) == 1 and p is not None and "[]" not in p and (v is None or v[0] == "ne"):
                env = dict(st.env)
                env[p] = ("c", rest[0])
                return St(env, st.ts, st.trace)
        if p is not None and "[]" not in p and (v is None or v[0] == "ne"):
            env = dict(st.env)
            env[p] = ("ne", frozenset(have))
            return St(env, st.ts, st.trace)
        return st

    # ---- conditions ----------------------------------------------------------
    def const(self, n):
        n = self.peel(n)
        if not isinstance(n, dict):
            return None
        k = n["k"]
        if k in ("CXXBoolLiteralExpr",):
            return ("c", bool(n["v"]) if not isinstance(n["v"], str) else n["v"] in ("true", "True"))
        if k in ("EnumConst",):
            return ("c", n["n"])
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return NULL
        if k == "DeclRefExpr" and n.get("d") == "std::nullopt":
            return NULL
        if k in ("IntegerLiteral",):
            try:
                return ("c", int(n["v"]))
            except (ValueError, TypeError):
                return None
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and plain_type_is(n, "std::optional"):
            return None
        return None

    def truth(self, v):
        if v is None:
            return None
        if v[0] == "c":
            return bool(v[1])
        if v[0] in ("nn", "addr", "clo"):
            return True
        if v[0] == "ne":
            if True in v[1]:
                return False
            if False in v[1]:
                return True
            if None in v[1]:
                return True
        return None

    def test_place(self, fr, p, st, kind):
        v = self.get(st, p)
        t = self.truth(v)
        if t is not None:
            return [(st, t)]
        if v is not None and v[0] not in ("ne",):
            return self.fork(st, "?v" + repr(v), ())
        if "[]" in p:
            return [(st, True), (st, False)]
        a, b = dict(st.env), dict(st.env)
        a[p], b[p] = (TRUE, FALSE) if kind == "bool" else (NN, NULL)
        return [(St(a, st.ts, st.trace), True), (St(b, st.ts, st.trace), False)]

    def fork(self, st, memo, deps):
        if memo is None:
            return [(st, True), (st, False)]
        v = st.env.get(memo)
        if v is not None:
            return [(st, v[1])]
        if not self.remember(memo):
            return [(st, True), (st, False)]
        self.deps[memo] = tuple(deps)
        a, b = dict(st.env), dict(st.env)
        a[memo], b[memo] = TRUE, FALSE
        return [(St(a, st.ts, st.trace), True), (St(b, st.ts, st.trace), False)]

    def remember(self, memo):
        return True

    def cond(self, fr, n, st):
        n0 = self.peel(n)
        k = n0["k"]
        if k == "UnaryOperator" and n0.get("op") == "!":
            return [(s, not b) for s, b in self.cond(fr, n0["c"][0], st)]
        if k == "BinaryOperator" and n0.get("op") in ("&&", "||"):
            res = []
            for s, b in self.cond(fr, n0["c"][0], st):
                if b == (n0["op"] == "||"):
                    res.append((s, b))
                else:
                    res += self.cond(fr, n0["c"][1], s)
            return res
        if k == "ConditionalOperator":
            res = []
            c = n0["c"]
            for s, b in self.cond(fr, c[0], st):
                res += self.cond(fr, c[1] if b else c[2], s)
            return res
        if k == "CXXOperatorCallExpr" and n0.get("op") == "!" and len(n0.get("c") or ()) == 1:
            return [(s, not b) for s, b in self.cond(fr, n0["c"][0], st)]
        h = self.on_cond(fr, n0, st)
        if h is not None:
            return h
        op = n0.get("op") if k in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp") else None
        if op in ("==", "!=") and len(n0.get("c") or ()) == 2:
            return self.equality(fr, n0, st, op == "==")
        if k == "CXXMemberCallExpr" and fname(n0) in ("operator bool", "has_value") and isinstance(n0.get("obj"), dict):
            res = []
            for s, v in self.expr(fr, n0["obj"], st):
                t = self.truth(v)
                p = self.place(fr, n0["obj"], s)
                if t is not None:
                    res.append((s, t))
                elif p is not None:
                    res += self.test_place(fr, p, s, "ptr")
                else:
                    c = self.canon(fr, n0["obj"], s)
                    res += self.fork(s, "?" + c[0] if c else None, c[1] if c else ())
            return res
        if k == "CXXMemberCallExpr" and fname(n0) == "empty" and isinstance(n0.get("obj"), dict):
            pass
        res = []
        ty = plain(fr["f"].type(n0)) if "t" in n0 else ""
        for s, v in self.expr(fr, n, st):
            if v == ("bottom",):
                continue
            t = self.truth(v)
            if t is not None:
                res.append((s, t))
                continue
            p = self.place(fr, n0, s)
            if p is not None:
                res += self.test_place(fr, p, s, "bool" if ty == "bool" else "ptr")
                continue
            if v is not None and v[0] == "s":
                res += self.fork(s, "?v" + repr(v), ())
                continue
            c = self.canon(fr, n0, s)
            if c is None:
                res += [(s, True), (s, False)]
            else:
                text, deps, neg = self.normal(c)
                res += [(s2, b != neg) for s2, b in self.fork(s, "?" + text, deps)]
        return res

    def on_cond(self, fr, n, st):
        return None

    @staticmethod
    def normal(c):
        return c[0], c[1], False

    def equality(self, fr, n, st, want):
        res = []
        a, b = n["c"]
        for s, va in self.expr(fr, a, st):
            for s2, vb in self.expr(fr, b, s):
                ca, cb = va or self.const(a), vb or self.const(b)
                if ca is not None and cb is not None and ca[0] == "c" and cb[0] == "c":
                    res.append((s2, (ca == cb) == want))
                    continue
                if ca is not None and cb is not None and ca[0] == "s" and ca == cb:
                    res.append((s2, want))
                    continue
                done = False
                for x, vx, cx in ((a, va, cb), (b, vb, ca)):
                    if cx is not None and cx[0] == "c" and (cx == NULL or not isinstance(cx[1], int) or isinstance(cx[1], bool)):
                        p = self.place(fr, x, s2)
                        uni = self.universe(fr, x)
                        if cx == NULL:
                            r = self.test_place(fr, p, s2, "ptr") if p is not None else [(s2, True), (s2, False)]
                            t = self.truth(vx)
                            if t is not None:
                                r = [(s2, t)]
                            res += [(s3, (not t3) == want) for s3, t3 in r]
                        else:
                            r = self.refine(s2, p, vx, cx)
                            if r is not None:
                                res.append((r, want))
                            r = self.exclude(s2, p, vx, {cx[1]}, uni)
                            if r is not None:
                                res.append((r, not want))
                        done = True
                        break
                if done:
                    continue
                c1, c2 = self.canon(fr, a, s2), self.canon(fr, b, s2)
                if c1 is None or c2 is None:
                    res += [(s2, True), (s2, False)]
                else:
                    t = "==".join(sorted([c1[0], c2[0]]))
                    res += [(s3, t3 == want) for s3, t3 in self.fork(s2, "?" + t, c1[1] + c2[1])]
        return res

    def canon(self, fr, n, st):
        """(text, places it depends on) of an expression that gives the same answer until one of them changes."""
        n = self.peel(n)
        if not isinstance(n, dict):
            return None
        c = self.const(n)
        if c is not None:
            return (repr(c[1]), ())
        p = self.place(fr, n, st)
        k = n["k"]
        if k in CALLS and self.volatile(n):
            return None
        if p is not None and "[]" not in p:
            v = self.get(st, p)
            if v is not None and v[0] == "s":
                return (repr(v), ())
            return (p, (p,))
        if k in ("StringLiteral", "FloatingLiteral", "CharacterLiteral"):
            return (repr(n.get("v")), ())
        if k in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp", "UnaryOperator", "ArraySubscriptExpr", "CallExpr", "CXXMemberCallExpr", "UserDefinedLiteral"):
            if k == "UnaryOperator" and n.get("op") in ("++", "--", "&"):
                return None
            if n.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--", "|=", "&=", "<<=", ">>=", "%=", "^=", ","):
                return None
            if k == "CXXMemberCallExpr" and not n.get("const"):
                return None
            if k == "CallExpr":
                ps = params_of(n.get("f") or "")
                if ps is None or any(writes_through(t) for t in ps):
                    return None
            parts, deps = [], ()
            subs = ([n["obj"]] if isinstance(n.get("obj"), dict) else []) + [x for x in n.get("c") or () if isinstance(x, dict)]
            for x in subs:
                if x["k"] == "CXXDefaultArgExpr":
                    parts.append("_")
                    continue
                r = self.canon(fr, x, st)
                if r is None:
                    return None
                parts.append(r[0])
                deps += r[1]
            head = n.get("op") or strip_targs(qcallee(n)) or fname(n) or k
            return ("%s(%s)" % (head, ",".join(parts)), deps)
        return None

    # ---- expressions ---------------------------------------------------------
    def expr(self, fr, n, st):
        n0 = n
        n = self.peel(n)
        if not isinstance(n, dict):
            return [(st, None)]
        k = n["k"]
        h = self.on_other(fr, n, st)
        if h is not None:
            return h
        c = self.const(n)
        if c is not None:
            return [(st, c)]
        if k in ("DeclRefExpr", "CXXThisExpr"):
            p = self.place(fr, n, st)
            if p is None:
                return [(st, None)]
            v = self.get(st, p)
            return [(st, v)]
        if k == "MemberExpr":
            b = (n.get("c") or [None])[0]
            res = []
            for s, _ in (self.expr(fr, b, st) if isinstance(b, dict) else [(st, None)]):
                p = self.place(fr, n, s)
                res.append((s, self.get(s, p) if p else None))
            return res
        if k == "LambdaExpr":
            for cp in n.get("caps") or ():
                if isinstance(cp.get("e"), dict):
                    r = self.expr(fr, cp["e"], st)
                    if len(r) == 1:
                        st = r[0][0]
                        if cp.get("d") and cp.get("init"):
                            st = self.bind(st, cp["d"], r[0][1])
            return [(st, ("clo", n.get("f"), fr["this"]))]
        if k == "ConditionalOperator":
            res = []
            cs = n["c"]
            for s, b in self.cond(fr, cs[0], st):
                res += self.expr(fr, cs[1] if b else cs[2], s)
            return res
        if k == "BinaryOperator":
            op = n.get("op")
            if op in ("&&", "||"):
                return [(s, ("c", b)) for s, b in self.cond(fr, n, st)]
            if op == "=":
                return self.assign(fr, n, n["c"][0], n["c"][1], st)
            if op == ",":
                return [x for s, _ in self.expr(fr, n["c"][0], st) for x in self.expr(fr, n["c"][1], s)]
            if op and op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                res = []
                for s, _ in self.expr(fr, n["c"][1], st):
                    p = self.place(fr, n["c"][0], s)
                    res.append((self.write(fr, n, s, p, None) if p else s, None))
                return res
            if op in ("==", "!="):
                return [(s, ("c", b)) for s, b in self.cond(fr, n, st)]
            res = []
            for s, a in self.expr(fr, n["c"][0], st):
                for s2, b in self.expr(fr, n["c"][1], s):
                    res.append((s2, None))
            if op in ("<", ">", "<=", ">="):
                return self.boolean(fr, n, res)
            return self.uniq(res)
        if k == "RewrittenOp" and n.get("op") in ("==", "!="):
            return [(s, ("c", b)) for s, b in self.cond(fr, n, st)]
        if k == "UnaryOperator":
            if n.get("op") == "!":
                return [(s, ("c", b)) for s, b in self.cond(fr, n, st)]
            if n.get("op") in ("++", "--"):
                res = []
                for s, _ in self.expr(fr, n["c"][0], st):
                    p = self.place(fr, n["c"][0], s)
                    res.append((self.write(fr, n, s, p, None) if p else s, None))
                return res
            if n.get("op") == "&":
                p = self.place(fr, n["c"][0], st)
                return [(st, ("addr", p) if p else NN)]
            if n.get("op") == "*":
                res = []
                for s, _ in self.expr(fr, n["c"][0], st):
                    p = self.place(fr, n, s)
                    res.append((s, self.get(s, p) if p else None))
                return res
        if k == "CXXThrowExpr":
            e = next(iter(kids(n)), None)
            if e is None:
                fr["out"].append(("throw", st, fr.get("rethrow") or ("t", "?")))
                return []
            for s, _ in self.expr(fr, e, st):
                x = strip(e)
                t = plain(fr["f"].type(e)) if "t" in e else ""
                fr["out"].append(("throw", s, ("t", t)))
            return []
        if k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXNewExpr"):
            return self.call(fr, n, st)
        res = [(st, None)]
        for x in kids(n):
            if n.get("k") in ("CXXDefaultArgExpr",):
                break
            res = self.uniq([(s2, None) for s, _ in res for s2, _ in self.expr(fr, x, s)])
        if k == "InitListExpr" and not list(kids(n)) and "t" in n and plain(fr["f"].type(n)).startswith("std::optional"):
            return [(s, NULL) for s, _ in res]
        return res

    def boolean(self, fr, n, res):
        out = []
        for s, _ in self.uniq(res):
            c = self.canon(fr, n, s)
            if c is not None:
                v = s.env.get("?" + self.compare(n, c))
                out.append((s, v))
            else:
                out.append((s, None))
        return out

    @staticmethod
    def compare(n, c):
        return c[0]

    @staticmethod
    def uniq(res):
        seen, out = set(), []
        for s, v in res:
            kk = (s.key(), v)
            if kk not in seen:
                seen.add(kk)
                out.append((s, v))
        return out

    def assign(self, fr, n, lhs, rhs, st):
        res = []
        for s, v in self.expr(fr, rhs, st):
            if v == ("bottom",):
                continue
            lw = self.peel(lhs)
            if isinstance(lw, dict) and lw["k"] not in ("DeclRefExpr",):
                for x in kids(lw):
                    r = self.expr(fr, x, s)
                    s = r[0][0] if r else s
            p = self.place(fr, lhs, s)
            if p is None:
                res.append((s, v))
                continue
            t = plain(fr["f"].type(lhs)) if isinstance(lhs, dict) and "t" in lhs else ""
            if v is None and t.startswith("std::optional") and not plain(fr["f"].type(self.peel(rhs)) if "t" in (self.peel(rhs) or {}) else "std::optional").startswith("std::optional"):
                v2 = NN
            else:
                v2 = v
            src = self.place(fr, rhs, s)
            s2 = self.write(fr, n, s, p, v2)
            if src is not None and "[]" not in p:
                extra = {p + kk[len(src):]: x for kk, x in s.env.items() if kk.startswith(src + ".")}
                if extra:
                    s2 = St({**s2.env, **extra}, s2.ts, s2.trace)
            res.append((s2, v2))
        return self.uniq(res)

    def closure(self, clo, args_types=None):
        key = clo[1]
        r = self.prog.fn(key)
        if r is not None and not r.get("pattern") and not any("type-parameter" in r.type(p["t"]) or plain(r.type(p["t"])).startswith("auto") for p in r["params"]):
            return r
        cands = [k for k in self.prog.insts if k.startswith(key + "#<") or k.startswith(key + "!<")]
        if cands:
            return self.prog.insts[sorted(cands)[0]]
        return r

    def call(self, fr, n, st):
        self.calls_seen += 1
        k = n["k"]
        name, key = fname(n), n.get("f")
        op = n.get("op")
        cs = [c for c in n.get("c") or ()]
        if k == "CXXOperatorCallExpr" and op == "=" and len(cs) == 2:
            r = self.on_call(fr, n, st, name, key, cs)
            if r is None:
                return self.assign(fr, n, cs[0], cs[1], st)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not n.get("fnm"):
            name = "(ctor)"
        # evaluate object and arguments
        states = [(st, [])]
        obj = n.get("obj")
        callee = n.get("callee")
        if isinstance(obj, dict):
            states = [(s, []) for s, _ in self.expr(fr, obj, st)]
        if isinstance(callee, dict) and callee["k"] not in ("DeclRefExpr", "MemberExpr"):
            states = [(s2, a) for s, a in states for s2, _ in self.expr(fr, callee, s)]
        for c in cs:
            if not isinstance(c, dict):
                continue
            nxt = []
            for s, a in states:
                for s2, v in self.expr(fr, c, s):
                    nxt.append((s2, a + [v]))
            seen, states = set(), []
            for s, a in nxt:
                kk = (s.key(), tuple(a))
                if kk not in seen:
                    seen.add(kk)
                    states.append((s, a))
            if len(states) > self.cap:
                raise TooHard("argument states")
        res = []
        for s, vals in states:
            r = self.on_call(fr, n, s, name, key, vals)
            if r is None:
                r = self.default_call(fr, n, s, name, key, vals, cs, obj)
            for kind, s2, v in r:
                if kind == "throw":
                    fr["out"].append(("throw", s2, v))
                else:
                    res.append((s2, v))
        if self.leave.noreturn(n):
            return []
        return self.uniq(res)

    def default_call(self, fr, n, s, name, key, vals, cs, obj):
        k = n["k"]
        q = qcallee(n)
        # invoking a local closure
        if k == "CXXOperatorCallExpr" and n.get("op") == "()" and vals and vals[0] is not None and vals[0][0] == "clo":
            rec = self.closure(vals[0])
            if rec is not None and rec.get("body"):
                return self.inline(fr, rec, n, s, cs[1:], vals[1:], vals[0][2])
        if k == "CallExpr" and q in ("std::invoke",) and vals and vals[0] is not None and vals[0][0] == "clo":
            rec = self.closure(vals[0])
            if rec is not None and rec.get("body"):
                return self.inline(fr, rec, n, s, cs[1:], vals[1:], vals[0][2])
        if key and k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            rec = self.prog.fn(key)
            if rec is not None and rec.get("body") and not rec.get("coro") and rec.key not in self.stack and self.should_inline(rec, n) and len(self.stack) < self.max_depth:
                this = "?obj"
                args, av = cs, vals
                if k == "CXXMemberCallExpr":
                    this = fr["this"] if not isinstance(obj, dict) else self.place(fr, obj, s) or "?obj"
                    v = s.env.get(this)
                    if v is not None and v[0] == "addr":
                        this = v[1]
                elif k == "CXXOperatorCallExpr" and len(cs) == len(rec["params"]) + 1:
                    this = self.place(fr, cs[0], s) or "?obj"
                    args, av = cs[1:], vals[1:]
                return self.inline(fr, rec, n, s, args, av, this)
        s2 = self.unknown_effects(fr, n, s, key, cs, obj, vals)
        v = None
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            t = plain(fr["f"].type(n)) if "t" in n else ""
            real = [c for c in cs if isinstance(c, dict) and c["k"] != "CXXDefaultArgExpr"]
            if t.startswith(SMART):
                if not real:
                    v = NULL
                elif len(real) == 1 and vals and vals[0] is not None:
                    v = vals[0] if vals[0][0] in ("c", "nn", "clo") and (vals[0] == NULL or vals[0][0] != "c") else NN
                elif t.startswith("std::optional") and len(real) == 1:
                    at = plain(fr["f"].type(self.peel(real[0]))) if "t" in (self.peel(real[0]) or {}) else ""
                    v = None if at.startswith("std::optional") else NN
            elif len(real) == 1 and vals:
                v = vals[0]
        elif k == "CXXNewExpr" or q in ("std::make_unique", "std::make_shared"):
            v = NN
        elif name in ("emplace", "reset") and isinstance(obj, dict):
            p = self.place(fr, obj, s2)
            if p is not None and strip_targs(q).startswith(SMART):
                s2 = self.write(fr, n, s2, p, NN if cs or name == "emplace" else NULL)
        elif k == "CXXMemberCallExpr" and name in ("operator bool", "has_value"):
            return [("val", s3, ("c", b)) for s3, b in self.cond(fr, n, s)]
        elif k == "CXXOperatorCallExpr" and n.get("op") in ("==", "!="):
            return [("val", s3, ("c", b)) for s3, b in self.equality_of(fr, n, s2, n["op"] == "==")]
        else:
            p = self.place(fr, n, s2)
            if p is not None:
                v = self.get(s2, p)
        return [("val", s2, v)]

    def equality_of(self, fr, n, s, want):
        return self.equality(fr, n, s, want) if len(n.get("c") or ()) == 2 else [(s, True), (s, False)]

    def unknown_effects(self, fr, n, s, key, cs, obj, vals):
        ps = params_of(key) if key else None
        k = n["k"]
        args = list(cs)
        if k == "CXXOperatorCallExpr" and ps is not None and len(args) == len(ps) + 1:
            if not (key or "").rstrip().endswith("const") and n.get("op") not in ("->", "*", "[]", "()") and not n.get("const"):
                p = self.place(fr, args[0], s)
                if p is not None:
                    s = self.write(fr, n, s, p, None)
            args = args[1:]
            vals = vals[1:]
        if k == "CXXMemberCallExpr" and not n.get("const"):
            p = fr["this"] if not isinstance(obj, dict) else self.place(fr, obj, s)
            if p is not None and fname(n) not in ("begin", "end", "data", "get", "back", "front", "at", "value", "find"):
                s = self.write_through(fr, n, s, p, obj)
        for i, a in enumerate(args):
            if not isinstance(a, dict):
                continue
            v = vals[i] if i < len(vals) else None
            if v is not None and v[0] == "clo":
                s = self.run_unknown_times(fr, v, s)
                continue
            if ps is None or i >= len(ps) or writes_through(ps[i]):
                p = v[1] if v is not None and v[0] == "addr" else self.place(fr, a, s)
                if p is not None:
                    s = self.write_through(fr, n, s, p, a if ps is not None and i < len(ps) and not re.search(r"\*(const)? ?&&?$", ps[i].strip()) else None)
        return s

    def write_through(self, fr, n, s, p, by):
        """Something unknown happens to a place, reached by an expression: what a pointer points at changes, not the pointer."""
        old = s.env.get(p)
        s = self.write(fr, n, s, p, None)
        if old in (NN, NULL) and isinstance(by, dict):
            x = by
            while isinstance(x, dict) and x["k"] in ("ImplicitCastExpr", "ParenExpr") and x.get("c"):
                x = x["c"][0]
            t = fr["f"].type(x).strip() if isinstance(x, dict) and "t" in x else ""
            if t.endswith(("*", "*const", "* const")) or x["k"] in ("UnaryOperator", "CXXOperatorCallExpr") and x.get("op") == "*":
                s = St({**s.env, p: old}, s.ts, s.trace)
        return s

    def run_unknown_times(self, fr, clo, s):
        """A closure handed to something that may run it: whatever it writes is no longer known."""
        rec = self.closure(clo)
        if rec is None or not rec.get("body"):
            return s
        for x in walk(rec.get("body")):
            t = None
            if x["k"] == "BinaryOperator" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = x["c"][0]
            elif x["k"] == "CXXOperatorCallExpr" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = x["c"][0]
            elif x["k"] in ("UnaryOperator", "CXXOperatorCallExpr") and x.get("op") in ("++", "--"):
                t = x["c"][0]
            elif x["k"] == "CXXMemberCallExpr" and not x.get("const"):
                t = x.get("obj")
            if isinstance(t, dict):
                p = self.place(dict(f=rec, this=clo[2], out=[]), t, s)
                if p is not None:
                    s = self.kill(s, p)
        return s

    def inline(self, fr, rec, n, s, args, vals, this):
        bound, pre = [], {}
        pt = [rec.type(p["t"]) for p in rec["params"]]
        for i, a in enumerate(args):
            v = vals[i] if i < len(vals) else None
            p = self.place(fr, a, s) if isinstance(a, dict) else None
            isref = i < len(pt) and pt[i].rstrip().endswith("&")
            if p is not None and (isref or i < len(rec["params"]) and (v is None or v[0] not in ("clo", "addr")) and
                                  rec["params"][i]["d"] not in self.assigned_in(rec)):
                bound.append(("ref", p))
            else:
                bound.append(v)
                if p is not None and i < len(rec["params"]):
                    d = rec["params"][i]["d"]
                    for kk, x in s.env.items():
                        if kk.startswith(p + "."):
                            pre[d + kk[len(p):]] = x
        res = []
        s0 = s
        for i, p in enumerate(rec["params"]):
            if isinstance(p.get("def"), dict) and (i >= len(args) or isinstance(args[i], dict) and args[i]["k"] == "CXXDefaultArgExpr") and (i >= len(bound) or bound[i] is None):
                bound = bound[:i] + [None] * (i - len(bound)) + [self.const(p["def"])] + bound[i + 1:]
            s0 = self.bind(s0, p["d"], bound[i] if i < len(bound) else None)
        if pre:
            s0 = St({**s0.env, **pre}, s0.ts, s0.trace)
        for kind, s2, v in self.run(rec, s0, this, None if False else [s0.env.get(p["d"]) for p in rec["params"]]):
            s2 = self.forget_locals(rec, s2)
            res.append(("throw" if kind == "throw" else "val", s2, v))
        return res

    def forget_locals(self, rec, s):
        ds = self.locals_of(rec)
        env = {k: v for k, v in s.env.items() if k.split(".", 1)[0] not in ds and not (k[0] == "?" and any(d.split(".", 1)[0] in ds for d in self.deps.get(k, ())))}
        return St(env, s.ts, s.trace) if len(env) != len(s.env) else s

    def assigned_in(self, rec):
        """Variables a body may change after their initialisation."""
        if rec.extra is None:
            rec.extra = {}
        if "assigned" not in rec.extra:
            ds = set()
            for x in walk(rec.get("body")):
                t = None
                op = x.get("op") or ""
                if x["k"] in ("BinaryOperator", "CXXOperatorCallExpr", "CompoundAssignOperator") and op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                    t = x["c"][0]
                elif op in ("++", "--") or x["k"] == "UnaryOperator" and op == "&":
                    t = x["c"][0]
                elif x["k"] == "CXXMemberCallExpr" and not x.get("const"):
                    t = x.get("obj")
                    if isinstance(t, dict) and "t" in t and rec.type(t).replace("const", "").strip().endswith("*"):
                        t = None        # what it points to may change, not the pointer
                elif x["k"] in CALLS and x.get("f") == rec.key:
                    pass            # handing a parameter on to itself changes nothing by itself
                elif x["k"] in CALLS:
                    ps = params_of(x.get("f")) if x.get("f") else None
                    for j, a in enumerate(x.get("c") or ()):
                        if isinstance(a, dict) and (ps is None or j >= len(ps) or writes_through(ps[j]) and ps[j].rstrip().endswith("&") or x["k"] == "CXXOperatorCallExpr"):
                            if ps is not None and x["k"] == "CXXOperatorCallExpr" and op in ("->", "*", "==", "!=", "<", ">", "<=", ">="):
                                continue
                            y = self.peel(a)
                            if isinstance(y, dict) and y["k"] == "DeclRefExpr":
                                ds.add(y.get("d"))
                y = self.peel(t) if isinstance(t, dict) else None
                while isinstance(y, dict) and y["k"] == "MemberExpr" and y.get("c"):
                    y = self.peel(y["c"][0])
                if isinstance(y, dict) and y["k"] == "DeclRefExpr":
                    ds.add(y.get("d"))
            rec.extra["assigned"] = ds
        return rec.extra["assigned"]

    def locals_of(self, rec):
        if rec.extra is None:
            rec.extra = {}
        if "locals" not in rec.extra:
            ds = {p["d"] for p in rec["params"]}
            for x in walk(rec.get("body")):
                if x["k"] == "VarDecl" and x.get("d"):
                    ds.add(x["d"])
            rec.extra["locals"] = ds
        return rec.extra["locals"]


def plain_type_is(n, t):
    return False
