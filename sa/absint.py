"""A path-splitting abstract interpreter for small integer functions.

Values are linear/polynomial forms over atoms (value numbers); every atom carries a union of
intervals and a parity.  Conditions refine the atoms they mention.  Loops are abstracted: what
the loop assigns is forgotten, the body is analysed once from that state.  Calls to library
functions with a known body are analysed in place.  Nothing is executed and no solver is used."""
import itertools

import cxx
from ir import kids, walk

INF = float("inf")
RANGES = {
    "long long": (-2**63, 2**63 - 1), "long": (-2**63, 2**63 - 1), "int": (-2**31, 2**31 - 1), "short": (-2**15, 2**15 - 1),
    "unsigned long long": (0, 2**64 - 1), "unsigned long": (0, 2**64 - 1), "unsigned int": (0, 2**32 - 1), "unsigned char": (0, 255),
    "bool": (0, 1), "char": (-128, 127), "signed char": (-128, 127), "unsigned short": (0, 65535),
}
for a, b in (("std::size_t", "unsigned long"), ("size_t", "unsigned long"), ("unsigned", "unsigned int"), ("std::ptrdiff_t", "long"),
             ("int64_t", "long"), ("uint64_t", "unsigned long"), ("uint32_t", "unsigned int"), ("int32_t", "int")):
    RANGES[a] = RANGES[b]
UNSIGNED = {k for k, v in RANGES.items() if v[0] == 0}


def tname(t):
    t = t.replace("const ", "").replace(" const", "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


# ---- interval unions ---------------------------------------------------------
def iv_norm(l):
    l = sorted((a, b) for a, b in l if a <= b)
    out = []
    for a, b in l:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def iv_and(x, y):
    return iv_norm([(max(a, c), min(b, d)) for a, b in x for c, d in y])


def iv_bounds(x):
    return x[0][0], x[-1][1]


def _mul(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def iv_mul(x, y):
    r = []
    for a, b in x:
        for c, d in y:
            p = [_mul(a, c), _mul(a, d), _mul(b, c), _mul(b, d)]
            r.append((min(p), max(p)))
    return iv_norm(r)


def iv_add(x, y):
    return iv_norm([(a + c, b + d) for a, b in x for c, d in y])


# ---- polynomials: tuple-of-(monomial, coef), monomial = sorted tuple of atoms ----
def p_const(c):
    return {(): c} if c else {}


def p_atom(a):
    return {(a,): 1}


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mm = tuple(sorted(m + n, key=repr))
            v = r.get(mm, 0) + c * d
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return r


def p_key(p):
    return tuple(sorted(p.items(), key=repr))


def p_isconst(p):
    return all(m == () for m in p)


class Num:
    __slots__ = ("p", "t")

    def __init__(self, p, t):
        self.p, self.t = p, t


class Obj:
    """A structure by value: field -> value, shared with nobody."""
    __slots__ = ("f", "t")

    def __init__(self, f, t):
        self.f, self.t = f, t


class Ptr:
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l


class Opt:
    """std::optional: engaged is True/False/None."""
    __slots__ = ("engaged", "v")

    def __init__(self, engaged, v):
        self.engaged, self.v = engaged, v


class Unk:
    pass


UNK = Unk()


class State:
    __slots__ = ("atoms", "mem", "facts", "dead", "ranges")

    def __init__(self):
        self.atoms, self.mem, self.facts, self.dead, self.ranges = {}, {}, set(), False, {}

    def copy(self):
        s = State()
        s.atoms, s.mem, s.facts, s.dead, s.ranges = dict(self.atoms), dict(self.mem), set(self.facts), self.dead, dict(self.ranges)
        return s


class TooHard(Exception):
    pass


class Interp:
    def __init__(self, prog, inline, max_paths=4000):
        """inline(key) says whether a callee is analysed in place."""
        self.prog, self.inline = prog, inline
        self.counter = itertools.count()
        self.obligations = []     # (fn rec, node, description, ok, detail)
        self.loops = []
        self.depth = 0
        self.max_paths = max_paths
        self.unsupported = []

    # -- atoms ---------------------------------------------------------------
    def fresh(self, st, ty, tag="v", iv=None, par=None):
        a = (tag, next(self.counter))
        lo, hi = RANGES.get(ty, (-INF, INF))
        st.atoms[a] = (iv if iv is not None else ((lo, hi),), par)
        return Num(p_atom(a), ty)

    def named(self, st, name, ty, iv):
        if name not in st.atoms:
            st.atoms[name] = (iv, None)
        else:
            st.atoms[name] = (iv_and(st.atoms[name][0], iv), st.atoms[name][1])
        return Num(p_atom(name), ty)

    def simp(self, st, p):
        """Replaces atoms known to be constants."""
        out = {}
        for m, c in p.items():
            k, mm = c, []
            for a in m:
                iv = st.atoms[a][0] if a in st.atoms else ((-INF, INF),)
                if len(iv) == 1 and iv[0][0] == iv[0][1]:
                    k = k * iv[0][0]
                else:
                    mm.append(a)
            mm = tuple(mm)
            v = out.get(mm, 0) + k
            if v:
                out[mm] = v
            else:
                out.pop(mm, None)
        return out

    def iv(self, st, p):
        """Interval union of a polynomial."""
        p = self.simp(st, p)
        r = ((0, 0),)
        for m, c in p.items():
            t = ((c, c),)
            seen = {}
            for a in m:
                seen[a] = seen.get(a, 0) + 1
            for a, n in seen.items():
                x = st.atoms[a][0] if a in st.atoms else ((-INF, INF),)
                if not x:
                    return ()
                y = x
                for _ in range(n - 1):
                    y = iv_mul(y, x)
                if n % 2 == 0:
                    y = iv_and(y, ((0, INF),))
                t = iv_mul(t, y)
            r = iv_add(r, t)
            if len(r) > 8:
                r = (iv_bounds(r),)
        if st.ranges:
            known = st.ranges.get(p_key({m: c for m, c in p.items() if m}))
            if known is not None:
                k = p.get((), 0)
                r = iv_and(r, tuple((a + k, b + k) for a, b in known))
        return r

    def parity(self, st, p):
        p = self.simp(st, p)
        tot = 0
        for m, c in p.items():
            if c % 2 == 0:
                continue
            v = 1
            for a in m:
                q = st.atoms.get(a, (None, None))[1]
                if q == 0:
                    v = 0
                    break
                if q is None:
                    v = None
            if v is None:
                return None
            tot += v
        return tot % 2

    def restrict(self, st, p, iv):
        """Refines the state so that the polynomial lies in iv."""
        cur = iv_and(self.iv(st, p), iv)
        if not cur:
            st.dead = True
            return
        q = self.simp(st, p)
        if len(q) > 1 or any(len(m) > 1 for m in q):
            # kept without the constant term, so that facts about p serve p + c
            k = q.get((), 0)
            q0 = {m: c for m, c in q.items() if m}
            st.ranges[p_key(q0)] = iv_norm([(a - k, b - k) for a, b in cur])
            st.ranges[p_key({m: -c for m, c in q0.items()})] = iv_norm([(k - b, k - a) for a, b in cur])
        lin = [(m, c) for m, c in q.items() if m]
        if len(lin) == 1 and len(lin[0][0]) == 1 and abs(lin[0][1]) == 1:
            (m, c), k = lin[0], q.get((), 0)
            a = m[0]
            if c == 1:
                tgt = [(x - k, y - k) for x, y in iv]
            else:
                tgt = [(k - y, k - x) for x, y in iv]
            old, par = st.atoms[a]
            new = iv_and(old, iv_norm(tgt))
            if not new:
                st.dead = True
                return
            st.atoms[a] = (new, par)
            self.derived(st, a)

    def derived(self, st, a):
        """Consequences of refining a named operation's result."""
        iv = st.atoms[a][0]
        if isinstance(a, tuple) and a[0] == "&1" or isinstance(a, tuple) and a[0] == "%2":
            base = dict(a[1])
            par = None
            if iv == ((0, 0),):
                par = 0
            elif not iv_and(iv, ((0, 0),)):
                par = 1
            if par is not None and len(base) == 1:
                (m, c), = base.items()
                if len(m) == 1 and c % 2 and m[0] in st.atoms:
                    old, op = st.atoms[m[0]]
                    if op is not None and op != par:
                        st.dead = True
                        return
                    st.atoms[m[0]] = (old, par)
                    if a[0] == "%2" and c == 1:
                        if iv == ((1, 1),):
                            self.restrict(st, base, ((1, INF),))
                        elif iv == ((-1, -1),):
                            self.restrict(st, base, ((-INF, -1),))

    # -- running -------------------------------------------------------------
    def run(self, f, args, st, this=None):
        """Analyses a function; returns [(kind, state, value, node)] with kind in return/throw."""
        if self.depth > 8:
            raise TooHard("call depth")
        self.depth += 1
        try:
            frame = dict(f=f, id=next(self.counter), this=this)
            for p, a in zip(f["params"], args):
                self.bind(st, frame, p, f.type(p["t"]), a)
            outs = self.stmt(frame, f.get("body"), [st])
            res = []
            for kind, s, v, n in outs:
                if kind == "fall":
                    res.append(("return", s, None, n))
                elif kind in ("return", "throw"):
                    res.append((kind, s, v, n))
                else:
                    raise TooHard("stray " + kind)
            return res
        finally:
            self.depth -= 1

    def bind(self, st, frame, var, ty, val):
        """val is ('ref', lvalue) or a value."""
        key = (frame["id"], var["d"])
        if isinstance(val, tuple) and val and val[0] == "ref":
            if ty.rstrip().endswith("&"):
                st.mem[("alias", key)] = val[1]
                return
            val = self.load(st, val[1], ty)
        self.store(st, key, self.clone(val))

    def clone(self, v):
        if isinstance(v, Obj):
            return Obj(dict((k, self.clone(x)) for k, x in v.f.items()), v.t)
        return v

    def load(self, st, l, ty):
        v = st.mem.get(l)
        if v is None:
            # a field of an object held by value?
            if len(l) == 3 and l[0] == "fld":
                base = self.load(st, l[1], None)
                if isinstance(base, Obj) and l[2] in base.f:
                    return base.f[l[2]]
            v = self.unknown(st, ty or "")
            if isinstance(v, (Num, Obj)):
                self.store(st, l, v)
        return v

    def store(self, st, l, v):
        if isinstance(l, tuple) and len(l) == 3 and l[0] == "fld":
            base = st.mem.get(l[1])
            if isinstance(base, Obj):
                nb = Obj(dict(base.f), base.t)
                nb.f[l[2]] = v
                st.mem[l[1]] = nb
                return
            if isinstance(l[1], tuple) and l[1][0] == "fld":
                pass
        st.mem[l] = v

    def unknown(self, st, ty):
        t = tname(ty)
        if t in RANGES:
            return self.fresh(st, t)
        if t == "gcs::Integer":
            return Obj({"raw_value": self.fresh(st, "long long")}, t)
        return UNK

    # -- statements: [state] -> [(kind, state, value, node)] --------------------
    def stmt(self, fr, n, states):
        out = []
        states = [s for s in states if not s.dead]
        if not isinstance(n, dict):
            return [("fall", s, None, None) for s in states]
        if len(states) > self.max_paths:
            raise TooHard("too many paths")
        k = n["k"]
        if k == "CompoundStmt":
            live = states
            for c in n.get("c") or ():
                nxt = []
                for r in self.stmt(fr, c, live):
                    if r[0] == "fall":
                        nxt.append(r[1])
                    else:
                        out.append(r)
                live = nxt
            return out + [("fall", s, None, n) for s in live]
        if k == "DeclStmt":
            for s in states:
                todo = [s]
                for v in n.get("c") or ():
                    if not isinstance(v, dict) or v["k"] != "VarDecl":
                        continue
                    nxt = []
                    for s1 in todo:
                        ty = fr["f"].type(v)
                        if v.get("init"):
                            if ty.rstrip().endswith("&"):
                                for s2, l in self.lval(fr, v["init"], s1, out):
                                    s2.mem[("alias", (fr["id"], v["d"]))] = l
                                    nxt.append(s2)
                            else:
                                for s2, val in self.expr(fr, v["init"], s1, out):
                                    self.store(s2, (fr["id"], v["d"]), self.clone(val))
                                    nxt.append(s2)
                        else:
                            self.store(s1, (fr["id"], v["d"]), self.unknown(s1, ty))
                            nxt.append(s1)
                    todo = nxt
                out += [("fall", s1, None, n) for s1 in todo]
            return out
        if k == "IfStmt":
            for s in states:
                pre = [s]
                for fld in ("init", "var"):
                    if isinstance(n.get(fld), dict):
                        nn = n[fld] if n[fld]["k"] in ("DeclStmt", "CompoundStmt") or fld == "init" else {"k": "DeclStmt", "c": [n[fld]]}
                        pre2 = []
                        for r in self.stmt(fr, nn, pre):
                            (pre2.append(r[1]) if r[0] == "fall" else out.append(r))
                        pre = pre2
                for s0 in pre:
                    for s1, b in self.cond(fr, n["cond"], s0, out):
                        if s1.dead:
                            continue
                        out += self.stmt(fr, n.get("then") if b else n.get("else"), [s1])
            return out
        if k == "ReturnStmt":
            e = (n.get("c") or [None])[0]
            for s in states:
                if e is None:
                    out.append(("return", s, None, n))
                    continue
                for s1, v in self.expr(fr, e, s, out):
                    if not s1.dead:
                        out.append(("return", s1, v, n))
            return out
        if k in ("WhileStmt", "ForStmt", "DoStmt"):
            return self.loop(fr, n, states)
        if k == "CXXForRangeStmt":
            return self.loop(fr, n, states)
        if k == "BreakStmt":
            return [("break", s, None, n) for s in states]
        if k == "ContinueStmt":
            return [("continue", s, None, n) for s in states]
        if k == "NullStmt":
            return [("fall", s, None, n) for s in states]
        if k == "SwitchStmt":
            raise TooHard("switch")
        if k in ("CXXTryStmt", "GotoStmt", "LabelStmt", "CoreturnStmt", "CoyieldExpr"):
            raise TooHard(k)
        # an expression statement
        for s in states:
            for s1, _ in self.expr(fr, n, s, out):
                if not s1.dead:
                    out.append(("fall", s1, None, n))
        return out

    def assigned(self, fr, n):
        """Lvalue keys a loop may change: variables assigned, incremented, or whose address/reference is passed on."""
        ids = set()
        for x in walk(n):
            k = x["k"]
            tgt = None
            if k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and x.get("op") in (
                    "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="):
                tgt = [x["c"][0]]
            elif k in ("UnaryOperator", "CXXOperatorCallExpr") and x.get("op") in ("++", "--", "&"):
                tgt = [x["c"][0]]
            elif k in ("CallExpr", "CXXMemberCallExpr"):
                tgt = [c for c in x.get("c") or () if isinstance(c, dict)] + ([x["obj"]] if isinstance(x.get("obj"), dict) else [])
                tgt = [c for c in tgt if c.get("lv") or c["k"] == "UnaryOperator"]
            for t in tgt or ():
                r, _ = cxx.root_of(t)
                if isinstance(r, dict) and r["k"] == "DeclRefExpr":
                    ids.add(r["d"])
                elif isinstance(r, dict) and r["k"] == "CXXThisExpr":
                    ids.add("this")
        return ids

    def loop(self, fr, n, states):
        out = []
        for s in states:
            pre = [s]
            if isinstance(n.get("init"), dict) and n["k"] != "CXXForRangeStmt":
                pre = []
                for r in self.stmt(fr, n["init"], [s]):
                    (pre.append(r[1]) if r[0] == "fall" else out.append(r))
            for s0 in pre:
                entry = s0.copy()
                ids = self.assigned(fr, n)
                head = s0.copy()
                for l in list(head.mem):
                    v = head.mem[l]
                    name = l[1] if isinstance(l, tuple) and len(l) == 2 and not isinstance(l[0], str) else None
                    if name in ids and l[0] == fr["id"]:
                        head.mem[l] = self.havoc(head, v)
                    elif isinstance(l, tuple) and l[0] in ("this", "fld") and ("this" in ids):
                        head.mem[l] = self.havoc(head, v)
                if n["k"] == "CXXForRangeStmt":
                    # the element is unknown
                    b = head.copy()
                    v = n.get("var")
                    for x in [v] + list(v.get("bind") or ()):
                        if isinstance(x, dict) and "d" in x:
                            self.store(b, (fr["id"], x["d"]), self.unknown(b, fr["f"].type(x) if "t" in x else ""))
                    back, exits = [], []
                    for r in self.stmt(fr, n.get("body"), [b]):
                        if r[0] in ("fall", "continue"):
                            back.append(r[1])
                        elif r[0] == "break":
                            exits.append(r[1])
                        else:
                            out.append(r)
                    out += [("fall", e, None, n) for e in exits] + [("fall", head.copy(), None, n)]
                    continue
                back, exits = [], []
                h = head.copy()
                if n["k"] == "DoStmt":
                    starts = [h]
                else:
                    starts = []
                    if isinstance(n.get("cond"), dict):
                        for s1, b in self.cond(fr, n["cond"], h, out):
                            if s1.dead:
                                continue
                            (starts if b else exits).append(s1)
                    else:
                        starts = [h]
                for r in self.stmt(fr, n.get("body"), starts):
                    if r[0] in ("fall", "continue"):
                        nxt = [r[1]]
                        if isinstance(n.get("inc"), dict):
                            nxt = []
                            for r2 in self.stmt(fr, n["inc"], [r[1]]):
                                (nxt.append(r2[1]) if r2[0] == "fall" else out.append(r2))
                        if n["k"] == "DoStmt":
                            for s1 in nxt:
                                for s2, b in self.cond(fr, n["cond"], s1, out):
                                    if not s2.dead:
                                        (back if b else exits).append(s2)
                        else:
                            back += nxt
                    elif r[0] == "break":
                        exits.append(r[1])
                    else:
                        out.append(r)
                self.loops.append(dict(fn=fr["f"], frame=fr["id"], node=n, entry=entry, head=head, back=back, exits=exits, ids=ids))
                out += [("fall", e, None, n) for e in exits]
        return out

    def havoc(self, st, v):
        if isinstance(v, Num):
            return self.fresh(st, v.t, "loop")
        if isinstance(v, Obj):
            return Obj({k: self.havoc(st, x) for k, x in v.f.items()}, v.t)
        return UNK

    # -- lvalues ---------------------------------------------------------------
    def lval(self, fr, n, st, out):
        """[(state, lvalue key)]"""
        k = n["k"]
        if k == "DeclRefExpr":
            key = (fr["id"], n["d"])
            a = st.mem.get(("alias", key))
            return [(st, a if a is not None else key)]
        if k in ("MemberExpr",):
            b = n["c"][0] if n.get("c") else None
            if b is None or b["k"] == "CXXThisExpr":
                if fr["this"] is None:
                    return [(st, ("this", n["n"]))]
                return [(st, ("fld", fr["this"], n["n"]))]
            if n.get("arrow"):
                r = []
                for s, v in self.expr(fr, b, st, out):
                    r.append((s, ("fld", v.l, n["n"]) if isinstance(v, Ptr) else ("tmp", next(self.counter))))
                return r
            return [(s, ("fld", l, n["n"])) for s, l in self.lval(fr, b, st, out)]
        if k == "UnaryOperator" and n.get("op") == "*":
            if n["c"][0]["k"] == "CXXThisExpr":
                return [(st, fr["this"] if fr["this"] is not None else ("thisobj",))]
            return [(s, v.l if isinstance(v, Ptr) else ("tmp", next(self.counter))) for s, v in self.expr(fr, n["c"][0], st, out)]
        if k in ("Temp",) and n.get("c"):
            r = []
            for s, v in self.expr(fr, n["c"][0], st, out):
                l = ("tmp", next(self.counter))
                self.store(s, l, v)
                r.append((s, l))
            return r
        if k == "CallExpr" and cxx.qcallee(n) in cxx.FORWARDERS:
            return self.lval(fr, n["c"][0], st, out)
        r = []
        for s, v in self.expr(fr, n, st, out, want_l=True):
            if isinstance(v, tuple) and v[0] == "ref":
                r.append((s, v[1]))
            else:
                l = ("tmp", next(self.counter))
                if v is not None:
                    self.store(s, l, v)
                r.append((s, l))
        return r

    # -- conditions: [(state, truth)] -------------------------------------------
    def cond(self, fr, n, st, out):
        n0 = n
        while n0["k"] in ("Temp", "ParenExpr") or (n0["k"] in cxx.CASTS and len(n0.get("c") or ()) == 1):
            n0 = n0["c"][0]
        k = n0["k"]
        if k == "UnaryOperator" and n0.get("op") == "!" or (k == "CXXOperatorCallExpr" and n0.get("op") == "!"):
            return [(s, not b) for s, b in self.cond(fr, n0["c"][0], st, out)]
        if k == "BinaryOperator" and n0.get("op") in ("&&", "||"):
            res = []
            for s, b in self.cond(fr, n0["c"][0], st, out):
                if s.dead:
                    continue
                if b == (n0["op"] == "||"):
                    res.append((s, b))
                else:
                    res += self.cond(fr, n0["c"][1], s, out)
            return res
        if k == "ConditionalOperator":
            res = []
            for s, b in self.cond(fr, n0.get("cond") or n0["c"][0], st, out):
                if not s.dead:
                    res += self.cond(fr, n0["c"][-2] if b else n0["c"][-1], s, out)
            return res
        if k in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp") and n0.get("op") in ("==", "!=", "<", "<=", ">", ">=") and len(n0.get("c") or ()) == 2:
            res = []
            for s, a in self.expr(fr, n0["c"][0], st, out):
                for s2, b in self.expr(fr, n0["c"][1], s, out):
                    x, y = self.num(a), self.num(b)
                    if x is None or y is None:
                        res += [(s2.copy(), True), (s2.copy(), False)]
                        continue
                    res += self.compare(s2, x, y, n0["op"])
            return res
        res = []
        for s, v in self.expr(fr, n0, st, out):
            if isinstance(v, tuple) and v and v[0] == "flag":
                res += v[1](s)
                continue
            x = self.num(v)
            if x is None:
                if isinstance(v, Opt) and v.engaged is not None:
                    res.append((s, v.engaged))
                else:
                    res += [(s.copy(), True), (s.copy(), False)]
            else:
                res += self.compare(s, x, Num({}, x.t), "!=")
        return res

    def compare(self, st, x, y, op):
        d = p_add(x.p, y.p, -1)
        sets = {"==": ((0, 0),), "<": ((-INF, -1),), "<=": ((-INF, 0),), ">": ((1, INF),), ">=": ((0, INF),)}
        neg = {"==": ((-INF, -1), (1, INF)), "<": ((0, INF),), "<=": ((1, INF),), ">": ((-INF, 0),), ">=": ((-INF, -1),)}
        if op == "!=":
            t, f = neg["=="], sets["=="]
        else:
            t, f = sets[op], neg[op]
        res = []
        for tgt, b in ((t, True), (f, False)):
            s = st.copy()
            self.restrict(s, d, tgt)
            if not s.dead:
                # both single atoms: refine each by the other's bounds
                self.bounds_refine(s, x.p, y.p, op if b else {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op])
            res.append((s, b))
        return res

    def bounds_refine(self, st, p, q, op):
        for a, b, o in ((p, q, op), (q, p, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            iv = self.iv(st, b)
            if not iv:
                st.dead = True
                return
            lo, hi = iv_bounds(iv)
            tgt = {"==": iv, "<": ((-INF, hi - 1),), "<=": ((-INF, hi),), ">": ((lo + 1, INF),), ">=": ((lo, INF),)}.get(o)
            if tgt is not None:
                self.restrict(st, a, tgt)
                if st.dead:
                    return

    def num(self, v):
        if isinstance(v, Num):
            return v
        if isinstance(v, Obj) and "raw_value" in v.f and isinstance(v.f["raw_value"], Num):
            return v.f["raw_value"]
        if isinstance(v, bool):
            return Num(p_const(int(v)), "bool")
        return None

    # -- expressions: [(state, value)] -------------------------------------------
    def many(self, fr, nodes, st, out):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.expr(fr, n, s, out):
                    if not s2.dead:
                        nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def arith(self, fr, n, st, op, x, y, ty):
        """Result of a built-in operation, recording the obligation that it cannot overflow."""
        f = fr["f"]
        t = tname(ty)
        rng = RANGES.get(t)
        if rng is None:
            return UNK
        if t in UNSIGNED:
            p = {"+": lambda: p_add(x.p, y.p), "-": lambda: p_add(x.p, y.p, -1), "*": lambda: p_mul(x.p, y.p)}.get(op)
            if p:
                p = p()
                iv = self.iv(st, p)
                if iv and iv_bounds(iv)[0] >= 0 and iv_bounds(iv)[1] <= rng[1]:
                    return Num(p, t)
            if op in ("/", "%") and y is not None:
                yi = self.iv(st, y.p)
                self.oblige(f, n, "%s divisor is not zero" % op, not iv_and(yi, ((0, 0),)), yi)
            if op in (">>", "<<"):
                yi = self.iv(st, y.p)
                w = rng[1].bit_length()
                self.oblige(f, n, "shift by less than the width", bool(yi) and 0 <= iv_bounds(yi)[0] and iv_bounds(yi)[1] < w, yi)
            return self.fresh(st, t)
        if op in ("+", "-", "*"):
            p = p_add(x.p, y.p) if op == "+" else p_add(x.p, y.p, -1) if op == "-" else p_mul(x.p, y.p)
            iv = self.iv(st, p)
            okk = (not iv) or (iv_bounds(iv)[0] >= rng[0] and iv_bounds(iv)[1] <= rng[1])
            self.oblige(f, n, "'%s' stays within %s" % (op, t), okk, iv)
            if okk:
                return Num(p, t)
            r = self.fresh(st, t)
            return r
        if op in ("/", "%"):
            xi, yi = self.iv(st, x.p), self.iv(st, y.p)
            self.oblige(f, n, "%s divisor is not zero" % op, not iv_and(yi, ((0, 0),)), yi)
            if rng[0] < 0:
                bad = iv_and(xi, ((rng[0], rng[0]),)) and iv_and(yi, ((-1, -1),))
                self.oblige(f, n, "%s is not minimum by -1" % op, not bad, (xi, yi))
            return self.div(st, op, x.p, y.p, t)
        if op in ("<<", ">>"):
            yi, xi = self.iv(st, y.p), self.iv(st, x.p)
            w = rng[1].bit_length() + 1
            okk = bool(yi) and 0 <= iv_bounds(yi)[0] and iv_bounds(yi)[1] < w
            self.oblige(f, n, "shift by less than the width", okk, yi)
            if op == "<<":
                lo, hi = iv_bounds(xi) if xi else (0, 0)
                fits = okk and hi * 2 ** min(iv_bounds(yi)[1], 200) <= rng[1] and lo * 2 ** min(iv_bounds(yi)[1], 200) >= rng[0]
                self.oblige(f, n, "'<<' stays within %s" % t, fits, (xi, yi))
                if fits:
                    return self.shl(st, x.p, y.p, t)
                return self.fresh(st, t)
            yc = self.const(st, y.p)
            if yc is not None and xi:
                d = 2 ** yc
                return self.named(st, (">>", p_key(self.simp(st, x.p)), yc), t, ((_fdiv(iv_bounds(xi)[0], d), _fdiv(iv_bounds(xi)[1], d)),))
            return self.fresh(st, t)
        if op == "&":
            for a, b in ((x, y), (y, x)):
                if self.const(st, b.p) == 1:
                    par = self.parity(st, a.p)
                    if par is not None:
                        return Num(p_const(par), t)
                    return self.named(st, ("&1", p_key(self.simp(st, a.p))), t, ((0, 1),))
            return self.fresh(st, t)
        return self.fresh(st, t)

    def const(self, st, p):
        p = self.simp(st, p)
        return p.get((), 0) if p_isconst(p) else None

    def shl(self, st, x, y, t):
        yi = iv_bounds(self.iv(st, y))
        k = self.named(st, ("pow2", p_key(self.simp(st, y))), t, ((2 ** max(0, int(yi[0])), 2 ** min(int(yi[1]), 200)),))
        return Num(p_mul(x, k.p), t)

    def div(self, st, op, xp, yp, t):
        """Truncated division or remainder as a value number, with sound bounds."""
        xp, yp = self.simp(st, xp), self.simp(st, yp)
        yc, xc = self.const(st, yp), self.const(st, xp)
        if yc in (1, -1):
            return Num(({m: c * yc for m, c in xp.items()} if op == "/" else {}), t)
        if xc == 0 and yc != 0:
            return Num({}, t)
        if xc is not None and yc:
            q = abs(xc) // abs(yc) * (1 if (xc < 0) == (yc < 0) else -1)
            return Num(p_const(q if op == "/" else xc - q * yc), t)
        xi, yi = self.iv(st, xp), self.iv(st, yp)
        if not xi or not yi:
            st.dead = True
            return Num({}, t)
        if op == "/":
            cand = []
            for a in xi:
                for b in yi:
                    for c in ((max(b[0], 1), b[1]), (b[0], min(b[1], -1))):
                        if c[0] > c[1]:
                            continue
                        vals = [_tdiv(u, v) for u in a for v in c]
                        if a[0] <= 0 <= a[1]:
                            vals.append(0)
                        cand.append((min(vals), max(vals)))
            iv = iv_norm(cand) or ((-INF, INF),)
            return self.named(st, ("/", p_key(xp), p_key(yp)), t, (iv_bounds(iv),))
        if yc is not None and abs(yc) == 2:
            par = self.parity(st, xp)
            lo, hi = iv_bounds(xi)
            if par == 0:
                return Num({}, t)
            if par == 1 and lo >= 0:
                return Num(p_const(1), t)
            if par == 1 and hi <= 0:
                return Num(p_const(-1), t)
            return self.named(st, ("%2", p_key(xp)), t, ((-1 if lo < 0 else 0, 1 if hi > 0 else 0),))
        m = max(abs(iv_bounds(yi)[0]), abs(iv_bounds(yi)[1])) - 1
        lo, hi = iv_bounds(xi)
        return self.named(st, ("%", p_key(xp), p_key(yp)), t, ((max(-m, lo) if lo < 0 else 0, min(m, hi) if hi > 0 else 0),))

    def oblige(self, f, n, what, ok, detail):
        self.obligations.append((f, n, what, bool(ok), detail))

    def overflow_flag(self, fr, n, st, op, x, y, target, ty):
        """__builtin_*_overflow: a condition whose two outcomes carry the exact meaning."""
        p = p_add(x.p, y.p) if op == "+" else p_add(x.p, y.p, -1) if op == "-" else p_mul(x.p, y.p)
        rng = RANGES[ty]
        self.oblige(fr["f"], n, "checked '%s'" % op, True, None)

        def split(s):
            t, f = s.copy(), s.copy()
            t.facts.add(("overflow", p_key(p), ty))
            iv = self.iv(t, p)
            if not iv_and(iv, ((-INF, rng[0] - 1), (rng[1] + 1, INF))):
                t.dead = True
            if target is not None:
                self.store(t, target, self.fresh(t, ty))
            self.restrict(f, p, ((rng[0], rng[1]),))
            if not f.dead and target is not None:
                lin = [m for m in p if m]
                if any(len(m) > 1 for m in lin) or len(lin) > 1:
                    # name the value so that its range is remembered
                    self.store(f, target, self.poly_value(f, p, ty))
                else:
                    self.store(f, target, Num(p, ty))
            return [(t, True), (f, False)]
        return ("flag", split)

    def poly_value(self, st, p, ty):
        return Num(p, ty)

    def expr(self, fr, n, st, out, want_l=False):
        f = fr["f"]
        k = n["k"]
        if k in ("Temp", "ParenExpr", "ExprWithCleanups", "FullExpr", "ConstantExpr") and len(n.get("c") or ()) == 1:
            return self.expr(fr, n["c"][0], st, out, want_l)
        if k == "IntegerLiteral":
            return [(st, Num(p_const(int(n["v"])), tname(f.type(n))))]
        if k == "CXXBoolLiteralExpr":
            return [(st, Num(p_const(1 if n.get("v") in (True, "true", 1) else 0), "bool"))]
        if k in ("StringLiteral", "CXXDefaultArgExpr", "CXXNullPtrLiteralExpr"):
            return [(st, UNK)]
        if k == "CXXDefaultInitExpr":
            return [(st, UNK)]
        if k == "CXXThisExpr":
            return [(st, Ptr(fr["this"]) if fr["this"] is not None else UNK)]
        if k == "DeclRefExpr":
            d = n["d"]
            if n.get("fn"):
                return [(st, UNK)]
            if d.startswith("std::numeric_limits<") and d.endswith("::digits"):
                r = RANGES.get(tname(d[len("std::numeric_limits<"):-len(">::digits")]))
                if r:
                    return [(st, Num(p_const(r[1].bit_length()), "int"))]
            if d == "std::nullopt":
                return [(st, Opt(False, None))]
            key = (fr["id"], d)
            l = st.mem.get(("alias", key), key)
            if l not in st.mem and d in self.prog.vars and self.prog.vars[d].get("init"):
                g = self.prog.vars[d]
                ini = cxx.strip(g["init"])
                if isinstance(ini, dict) and ini["k"] == "IntegerLiteral" and "const" in f.type(n):
                    return [(st, Num(p_const(int(ini["v"])), tname(f.type(n))))]
            if want_l:
                return [(st, ("ref", l))]
            return [(st, self.load(st, l, f.type(n)))]
        if k == "MemberExpr":
            if n.get("fn"):
                return [(st, UNK)]
            b = (n.get("c") or [None])[0]
            if b is not None and not n.get("arrow") and not b.get("lv") and b["k"] != "CXXThisExpr":
                res = []
                for s, v in self.expr(fr, b, st, out):
                    if isinstance(v, Obj) and n["n"] in v.f:
                        res.append((s, v.f[n["n"]]))
                    else:
                        res.append((s, self.unknown(s, f.type(n))))
                return res
            return [(s, self.load(s, l, f.type(n)) if not want_l else ("ref", l)) for s, l in self.lval(fr, n, st, out)]
        if k in cxx.CASTS and len(n.get("c") or ()) == 1:
            t = tname(f.type(n))
            res = []
            for s, v in self.expr(fr, n["c"][0], st, out):
                x = self.num(v)
                if t == "gcs::Integer" and x is not None:
                    res.append((s, Obj({"raw_value": Num(x.p, "long long")}, t)))
                elif t in RANGES and x is not None:
                    res.append((s, self.convert(s, x, t)))
                elif t in RANGES:
                    res.append((s, self.fresh(s, t)))
                else:
                    res.append((s, v))
            return res
        if k in ("UnaryOperator",):
            op = n["op"]
            if op in ("++", "--"):
                res = []
                for s, l in self.lval(fr, n["c"][0], st, out):
                    v = self.load(s, l, f.type(n["c"][0]))
                    x = self.num(v)
                    if x is None:
                        res.append((s, UNK))
                        continue
                    r = self.arith(fr, n, s, op[0], x, Num(p_const(1), x.t), x.t)
                    self.store(s, l, r)
                    res.append((s, x if n.get("postfix") else (("ref", l) if want_l else r)))
                return res
            if op == "*":
                return [(s, ("ref", l) if want_l else self.load(s, l, f.type(n))) for s, l in self.lval(fr, n, st, out)]
            if op == "&":
                return [(s, Ptr(l)) for s, l in self.lval(fr, n["c"][0], st, out)]
            res = []
            if op == "!":
                for s, b in self.cond(fr, n, st, out):
                    res.append((s, Num(p_const(int(b)), "bool")))
                return res
            for s, v in self.expr(fr, n["c"][0], st, out):
                x = self.num(v)
                if x is None:
                    res.append((s, self.unknown(s, f.type(n))))
                elif op == "-":
                    res.append((s, self.arith(fr, n, s, "-", Num({}, x.t), x, f.type(n))))
                elif op == "+":
                    res.append((s, x))
                else:
                    res.append((s, self.unknown(s, f.type(n))))
            return res
        if k in ("BinaryOperator", "CompoundAssignOperator", "RewrittenOp"):
            op = n["op"]
            if op in ("==", "!=", "<", "<=", ">", ">=", "&&", "||"):
                return [(s, Num(p_const(int(b)), "bool")) for s, b in self.cond(fr, n, st, out) if not s.dead]
            if op == ",":
                return [(s, vs[-1]) for s, vs in self.many(fr, n["c"], st, out)]
            if op == "=":
                res = []
                for s, v in self.expr(fr, n["c"][1], st, out):
                    for s2, l in self.lval(fr, n["c"][0], s, out):
                        x = self.num(v)
                        t = tname(f.type(n["c"][0]))
                        if isinstance(v, Num) and t in RANGES:
                            v = self.convert(s2, x, t)
                        self.store(s2, l, self.clone(v))
                        res.append((s2, ("ref", l) if want_l else v))
                return res
            if k == "CompoundAssignOperator":
                res = []
                for s, v in self.expr(fr, n["c"][1], st, out):
                    for s2, l in self.lval(fr, n["c"][0], s, out):
                        x, y = self.num(self.load(s2, l, f.type(n["c"][0]))), self.num(v)
                        if x is None or y is None:
                            r = self.unknown(s2, f.type(n))
                        else:
                            r = self.arith(fr, n, s2, op[:-1], x, y, f.type(n["c"][0]))
                        self.store(s2, l, r)
                        res.append((s2, ("ref", l) if want_l else r))
                return res
            res = []
            for s, (a, b) in self.many(fr, n["c"][:2], st, out):
                x, y = self.num(a), self.num(b)
                if x is None or y is None:
                    res.append((s, self.unknown(s, f.type(n))))
                else:
                    t = tname(f.type(n))
                    if t in RANGES:
                        x, y = self.convert(s, x, t), (y if op in ("<<", ">>") else self.convert(s, y, t))
                    res.append((s, self.arith(fr, n, s, op, x, y, t)))
            return res
        if k == "ConditionalOperator":
            res = []
            for s, b in self.cond(fr, n.get("cond") or n["c"][0], st, out):
                if not s.dead:
                    res += self.expr(fr, n["c"][-2] if b else n["c"][-1], s, out)
            return res
        if k == "CXXThrowExpr":
            for s, _ in self.many(fr, [c for c in n.get("c") or () if isinstance(c, dict)], st, out):
                out.append(("throw", s, f.type(n["c"][0]) if n.get("c") else "", n))
            return []
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            return self.construct(fr, n, st, out)
        if k == "LambdaExpr":
            return [(st, UNK)]
        if k in cxx.CALLS:
            return self.call(fr, n, st, out, want_l)
        # anything else: evaluate the operands for their effects
        res = []
        for s, _ in self.many(fr, list(kids(n)), st, out):
            res.append((s, self.unknown(s, f.type(n) if "t" in n else "")))
        return res

    def convert(self, st, x, t):
        rng = RANGES[t]
        if t == "bool":
            return Num(x.p, t) if self.iv(st, x.p) and iv_bounds(self.iv(st, x.p))[0] >= 0 and iv_bounds(self.iv(st, x.p))[1] <= 1 else self.fresh(st, "bool")
        iv = self.iv(st, x.p)
        if iv and iv_bounds(iv)[0] >= rng[0] and iv_bounds(iv)[1] <= rng[1]:
            return Num(x.p, t)
        return self.named(st, ("conv", t, p_key(self.simp(st, x.p))), t, (rng,))

    def construct(self, fr, n, st, out):
        f = fr["f"]
        t = tname(f.type(n))
        args = [c for c in n.get("c") or () if isinstance(c, dict) and c["k"] != "CXXDefaultArgExpr"]
        res = []
        if t == "gcs::Integer":
            for s, vs in self.many(fr, args, st, out):
                x = self.num(vs[0]) if vs else None
                res.append((s, Obj({"raw_value": self.convert(s, x, "long long") if x else self.fresh(s, "long long")}, t)))
            return res
        if t.startswith("std::optional<"):
            for s, vs in self.many(fr, args, st, out):
                if not vs:
                    res.append((s, Opt(False, None)))
                elif isinstance(vs[0], Opt):
                    res.append((s, vs[0]))
                elif "nullopt" in (n.get("f") or ""):
                    res.append((s, Opt(False, None)))
                else:
                    res.append((s, Opt(True, vs[0])))
            return res
        if t in RANGES:
            for s, vs in self.many(fr, args, st, out):
                x = self.num(vs[0]) if vs else Num({}, t)
                res.append((s, self.convert(s, x, t) if x else self.fresh(s, t)))
            return res
        if "nullopt_t" in t:
            return [(st, Opt(False, None))]
        for s, vs in self.many(fr, args, st, out):
            res.append((s, vs[0] if len(vs) == 1 and n["k"] != "InitListExpr" and isinstance(vs[0], (Obj, Opt)) else UNK))
        return res

    def call(self, fr, n, st, out, want_l=False):
        f = fr["f"]
        q = cxx.qcallee(n)
        nm = cxx.fname(n) or ""
        args = [c for c in n.get("c") or () if isinstance(c, dict)]
        ty = f.type(n) if "t" in n else ""
        key = n.get("f") or ""
        if n["k"] == "UserDefinedLiteral":
            lit = args[0] if args else None
            if lit is not None and lit["k"] == "IntegerLiteral" and tname(ty) == "gcs::Integer":
                return [(st, Obj({"raw_value": Num(p_const(int(lit["v"])), "long long")}, "gcs::Integer"))]
            return [(st, self.unknown(st, ty))]
        if key.startswith("std::numeric_limits<") and nm in ("max", "min", "lowest"):
            r = RANGES.get(tname(key[len("std::numeric_limits<"):key.index(">::")]))
            if r:
                return [(st, Num(p_const(r[1] if nm == "max" else r[0]), tname(ty)))]
        if nm in ("__builtin_add_overflow", "__builtin_sub_overflow", "__builtin_mul_overflow", "__builtin_saddll_overflow",
                  "__builtin_ssubll_overflow", "__builtin_smulll_overflow"):
            res = []
            op = {"a": "+", "s": "-", "m": "*"}[nm.replace("__builtin_s", "__builtin_", 1)[10] if nm.endswith("ll_overflow") else nm[10]]
            for s, vs in self.many(fr, args, st, out):
                x, y = self.num(vs[0]), self.num(vs[1])
                tt = tname(f.type(args[2])).rstrip("*").strip()
                if x is None or y is None or not isinstance(vs[2], Ptr) or tt not in RANGES:
                    res.append((s, self.unknown(s, ty)))
                else:
                    res.append((s, self.overflow_flag(fr, n, s, op, x, y, vs[2].l, tt)))
            return res
        if nm in ("llabs", "labs", "abs") and tname(ty) in RANGES:
            res = []
            for s, vs in self.many(fr, args, st, out):
                x = self.num(vs[0])
                t = tname(ty)
                if x is None:
                    res.append((s, self.fresh(s, t)))
                    continue
                xi = self.iv(s, x.p)
                self.oblige(f, n, "absolute value of the minimum is not taken", not iv_and(xi, ((RANGES[t][0], RANGES[t][0]),)), xi)
                for tgt, sign in ((((0, INF),), 1), (((-INF, -1),), -1)):
                    s2 = s.copy()
                    self.restrict(s2, x.p, tgt)
                    if not s2.dead:
                        res.append((s2, Num({m: c * sign for m, c in x.p.items()}, t)))
            return res
        if q in cxx.FORWARDERS and args:
            return self.expr(fr, args[0], st, out, want_l)
        callee = self.prog.fn(key)
        obj = n.get("obj")
        params = callee["params"] if callee is not None and callee.r == "fn" else None
        if callee is not None and params is not None and callee.get("body") is not None and self.inline(callee) and not callee.get("coro"):
            # operators written as members take their object first
            this = None
            res = []
            starts = [(st, None)]
            rest = args
            if callee.get("cls") and not callee.get("st") and "::(ctor)" not in key:
                o = obj if isinstance(obj, dict) else (args[0] if n["k"] == "CXXOperatorCallExpr" else None)
                if n["k"] == "CXXOperatorCallExpr":
                    rest = args[1:]
                if o is not None:
                    if n.get("arrow") or o["k"] == "CXXThisExpr":
                        starts = [(s, v.l if isinstance(v, Ptr) else ("tmp", next(self.counter))) for s, v in self.expr(fr, o, st, out)]
                    else:
                        starts = self.lval(fr, o, st, out)
            # operator++(int) receives a dummy
            for s, th in starts:
                alts = [(s, [])]
                for i, a in enumerate(rest):
                    if i >= len(params):
                        break
                    pt = callee.type(params[i]["t"])
                    nxt = []
                    for s1, vs in alts:
                        if pt.rstrip().endswith("&"):
                            nxt += [(s2, vs + [("ref", l)]) for s2, l in self.lval(fr, a, s1, out)]
                        else:
                            nxt += [(s2, vs + [v]) for s2, v in self.expr(fr, a, s1, out)]
                    alts = nxt
                for s1, vs in alts:
                    while len(vs) < len(params):
                        vs.append(self.unknown(s1, callee.type(params[len(vs)]["t"])))
                    for kind, s2, v, node in self.run(callee, vs, s1, th):
                        if kind == "throw":
                            out.append((kind, s2, v, node))
                        else:
                            if isinstance(v, tuple) and v and v[0] == "ref" and not want_l:
                                v = self.load(s2, v[1], ty)
                            res.append((s2, v if v is not None else UNK))
            return res
        res = []
        ops = ([obj] if isinstance(obj, dict) else []) + args
        for s, vs in self.many(fr, ops, st, out):
            if n.get("noret"):
                out.append(("throw", s, nm, n))
                continue
            # references handed to unknown code may change
            for a in args + ([obj] if isinstance(obj, dict) and not n.get("const") else []):
                if a.get("lv") or (a["k"] == "UnaryOperator" and a.get("op") == "&"):
                    r, _ = cxx.root_of(a)
                    if isinstance(r, dict) and r["k"] == "DeclRefExpr" and "const" not in f.type(a).split("<")[0]:
                        key2 = (fr["id"], r["d"])
                        if key2 in s.mem and not self.by_value(callee, args, a):
                            s.mem[key2] = self.havoc(s, s.mem[key2])
            res.append((s, self.unknown(s, ty)))
        return res

    def by_value(self, callee, args, a):
        if callee is None:
            return False
        ps = callee.get("params")
        if ps is None or a not in args:
            return False
        i = args.index(a)
        if i >= len(ps):
            return False
        t = callee.type(ps[i]["t"]).strip()
        return not t.endswith(("&", "*")) or t.startswith("const ")


def _fdiv(a, d):
    return a if a in (INF, -INF) else a // d


def _tdiv(a, b):
    if a in (INF, -INF):
        return a if b > 0 else -a
    if b in (INF, -INF):
        return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
