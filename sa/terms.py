"""The interpreter of absint.py over a domain of terms: integers are exact affine forms over named
atoms, other values are known structures, enumerators, closures, or opaque applications of
functions that are not analysed (equal applications are equal).  Variants are resolved to one
alternative at a time.  Used to compare what a function computes with what it is required to."""
import cxx
from absint import (INF, Interp, Num, Obj, Opt, Ptr, TooHard, UNK, Unk, RANGES, p_add, p_atom, p_const, p_key, p_mul, tname, iv_and)

INT = "gcs::Integer"


class Enum:
    __slots__ = ("n", "t")

    def __init__(self, n, t):
        self.n, self.t = n, t

    def __repr__(self):
        return self.n


class Term:
    __slots__ = ("n", "a", "t")

    def __init__(self, n, a, t):
        self.n, self.a, self.t = n, tuple(a), t

    def __repr__(self):
        return "%s(%s)" % (self.n, ", ".join(map(repr, self.a)))


class Clo:
    __slots__ = ("key", "fr", "t")

    def __init__(self, key, fr):
        self.key, self.fr, self.t = key, fr, "lambda"


class Null:
    t = "nullptr"


def inner_types(t):
    """Template arguments at the top level of a type."""
    if "<" not in t:
        return []
    s = t[t.index("<") + 1:t.rindex(">")]
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def alternatives(t):
    t = tname(t)
    return inner_types(t) if t.startswith("std::variant<") else [t]


def flat_alternatives(t):
    out = []
    for a in alternatives(t):
        out += flat_alternatives(a) if a.startswith("std::variant<") else [a]
    return out


def integer(p):
    return Obj({"raw_value": Num(p, "long long")}, INT)


def atom(st, name, iv=((-INF, INF),)):
    st.atoms.setdefault(name, (iv, None))
    return integer(p_atom(name))


ARITH = {"gcs::operator+", "gcs::operator-", "gcs::operator*", "gcs::Integer::operator+", "gcs::Integer::operator-", "gcs::Integer::operator*",
         "gcs::Integer::operator+=", "gcs::Integer::operator-=", "gcs::Integer::operator++", "gcs::Integer::operator--"}


class Terms(Interp):
    def __init__(self, prog, inline, max_paths=4000):
        super().__init__(prog, inline, max_paths)
        self.max_depth = 14
        self.case_values = {}

    # ---- value numbers -------------------------------------------------------
    def vkey(self, st, v):
        if isinstance(v, Num):
            return p_key(self.simp(st, v.p))
        if isinstance(v, Enum):
            return ("enum", v.n)
        if isinstance(v, Obj):
            return ("obj", v.t) + tuple((k, self.vkey(st, x)) for k, x in v.f.items())
        if isinstance(v, Term):
            return ("term", v.n) + tuple(self.vkey(st, x) for x in v.a)
        if isinstance(v, Ptr):
            return ("ptr", v.l) if v.l not in st.mem else ("ptrto", self.vkey(st, st.mem[v.l]))
        if isinstance(v, Opt):
            return ("opt", v.engaged, self.vkey(st, v.v) if v.v is not None else None)
        if isinstance(v, Clo):
            return ("clo", v.key)
        if isinstance(v, tuple) and v and v[0] == "ref":
            return self.vkey(st, self.load(st, v[1], None))
        return ("?", id(v))

    def opaque(self, st, name, args, ty):
        t = tname(ty or "")
        key = ("app", name) + tuple(self.vkey(st, a) for a in args)
        if t == INT:
            st.atoms.setdefault(key, (((-INF, INF),), None))
            return integer(p_atom(key))
        if t in RANGES:
            rng = RANGES[t]
            st.atoms.setdefault(key, ((rng,), None))
            return Num(p_atom(key), t)
        if t.startswith("std::optional<"):
            return Opt(None, self.opaque(st, name + ".value", args, inner_types(t)[0]))
        return st.mem.get(("known", key)) or Term(name, args, t)

    def event(self, st, name, args, node):
        st.mem[("events",)] = st.mem.get(("events",), ()) + ((name, tuple(args), node),)

    def unknown(self, st, ty):
        t = tname(ty or "")
        if t == INT:
            n = ("v", next(self.counter))
            st.atoms[n] = (((-INF, INF),), None)
            return integer(p_atom(n))
        if t in RANGES:
            return self.fresh(st, t)
        return Term("?%d" % next(self.counter), (), t)

    def clone(self, v):
        return v

    def by_copy(self, v):
        return v

    # ---- frames --------------------------------------------------------------
    def find(self, fr, st, d):
        f = fr
        while f is not None:
            key = (f["id"], d)
            a = st.mem.get(("alias", key))
            if a is not None:
                return a
            if key in st.mem:
                return key
            f = f.get("up")
        return (fr["id"], d)

    def run(self, f, args, st, this=None, up=None):
        if self.depth > self.max_depth:
            raise TooHard("call depth")
        self.depth += 1
        try:
            frame = dict(f=f, id=next(self.counter), this=this if up is None else up["this"], up=up)
            for i, p in enumerate(f["params"]):
                if i < len(args):
                    self.bind(st, frame, p, f.type(p["t"]), args[i])
                else:
                    self.store(st, (frame["id"], p["d"]), self.default_arg(st, f, p))
            outs = self.stmt(frame, f.get("body"), [st])
            res = []
            for kind, s, v, n in outs:
                if kind == "fall":
                    res.append(("return", s, None, n))
                elif kind in ("return", "throw"):
                    if isinstance(v, tuple) and v and v[0] == "ref" and not f.type(f["ret"]).rstrip().endswith("&"):
                        v = self.load(s, v[1], None)
                    res.append((kind, s, v, n))
                else:
                    raise TooHard("stray " + kind)
            return res
        finally:
            self.depth -= 1

    def default_arg(self, st, f, p):
        return self.unknown(st, f.type(p["t"]))

    def invoke(self, fr, clo, args, st, out, n):
        """Runs a closure."""
        rec = clo.fn if isinstance(clo, BoundClo) else None
        if rec is None:
            rec = self.closure_rec(clo, args, st)
        if rec is None:
            return [(st, self.opaque(st, "call:" + clo.key, args, fr["f"].type(n) if n and "t" in n else ""))]
        res = []
        for kind, s, v, node in self.run(rec, args, st, None, clo.fr):
            if kind == "throw":
                out.append((kind, s, v, node))
            else:
                res.append((s, v if v is not None else UNK))
        return res

    def closure_rec(self, clo, args, st):
        base = clo.key
        r = self.prog.fns.get(base) or self.prog.insts.get(base)
        if r is not None and not r.get("pattern") and not self.is_generic(r):
            return r
        t = None
        if args:
            a = args[0]
            v = self.load(st, a[1], None) if isinstance(a, tuple) and a and a[0] == "ref" else a
            t = getattr(v, "t", None)
        cands = [k for k in self.prog.insts if k.startswith(base + "#<")]
        for k in cands:
            if t and inner_types(k[len(base):]) and inner_types(k[len(base):])[0] == t:
                return self.prog.insts[k]
        for k in cands:
            a = inner_types(k[len(base):])
            if a and t in flat_alternatives(a[0]):
                return self.prog.insts[k]
        if len(cands) == 1:
            return self.prog.insts[cands[0]]
        return None if self.is_generic(r) else r

    def is_generic(self, r):
        return r is not None and any("type-parameter" in r.type(p["t"]) or r.type(p["t"]).replace("const ", "").startswith("auto") for p in r["params"])

    # ---- memory --------------------------------------------------------------
    def load(self, st, l, ty):
        v = st.mem.get(l)
        if v is not None:
            return v
        if isinstance(l, tuple) and len(l) == 3 and l[0] == "fld":
            base = self.load(st, l[1], None)
            return self.field(st, base, l[2], ty)
        if isinstance(l, tuple) and len(l) == 2 and l[0] == "this":
            v = self.opaque(st, "this." + l[1], [], ty)
            return v
        v = self.unknown(st, ty)
        st.mem[l] = v
        return v

    def field(self, st, base, name, ty):
        if isinstance(base, Obj):
            if name in base.f:
                return base.f[name]
        if isinstance(base, (Obj, Term)):
            return self.opaque(st, "." + name, [base], ty)
        return self.unknown(st, ty)

    def store(self, st, l, v):
        if isinstance(l, tuple) and len(l) == 3 and l[0] == "fld":
            base = st.mem.get(l[1])
            if isinstance(base, Obj):
                nb = Obj(dict(base.f), base.t)
                nb.f[l[2]] = v
                st.mem[l[1]] = nb
                return
        st.mem[l] = v

    def havoc(self, st, v):
        if isinstance(v, Obj) and v.t == INT:
            return self.unknown(st, INT)
        if isinstance(v, Num):
            return self.fresh(st, v.t, "loop")
        if isinstance(v, Obj):
            return Obj({k: self.havoc(st, x) for k, x in v.f.items()}, v.t)
        if isinstance(v, Opt):
            return Opt(None, self.havoc(st, v.v) if v.v is not None else None)
        if isinstance(v, (Clo, Enum)):
            return v if isinstance(v, Clo) else Term("?%d" % next(self.counter), (), v.t)
        if isinstance(v, Term):
            return Term("?%d" % next(self.counter), (), v.t)
        return v

    # ---- statements ----------------------------------------------------------
    def stmt(self, fr, n, states):
        if isinstance(n, dict) and n["k"] == "SwitchStmt":
            return self.switch(fr, n, states)
        if isinstance(n, dict) and n["k"] == "DeclStmt":
            return self.declare(fr, n, [s for s in states if not s.dead])
        if isinstance(n, dict) and n["k"] == "CXXForRangeStmt":
            return self.range_for(fr, n, [s for s in states if not s.dead])
        if isinstance(n, dict) and n["k"] in ("CoyieldStmt", "CoreturnStmt"):
            out = []
            for s in states:
                for s1, _ in self.many(fr, [c for c in n.get("c") or () if isinstance(c, dict)], s, out):
                    out.append(("return", s1, None, n))
            return out
        return super().stmt(fr, n, states)

    def range_for(self, fr, n, states):
        """The body once, for an arbitrary element of the range, after forgetting what the body changes."""
        out = []
        for s in states:
            for s0, rng in self.expr(fr, n["range"], s, out):
                ids = self.assigned(fr, n.get("body"))
                head = s0.copy()
                for l in list(head.mem):
                    if isinstance(l, tuple) and len(l) == 2 and not isinstance(l[0], str) and l[1] in ids:
                        head.mem[l] = self.havoc(head, head.mem[l])
                b = head.copy()
                v = n["var"]
                ty = fr["f"].type(v)
                elem = self.opaque(b, "element", [rng if not (isinstance(rng, tuple) and rng[0] == "ref") else self.load(b, rng[1], None)], ty)
                if isinstance(elem, Term) and tname(ty).startswith("std::pair<"):
                    ts = inner_types(tname(ty))
                    elem = Obj({"first": self.opaque(b, ".first", [elem], ts[0]), "second": self.opaque(b, ".second", [elem], ts[1])}, tname(ty))
                self.bind_names(fr, b, v, elem)
                back, exits = [], []
                for r in self.stmt(fr, n.get("body"), [b]):
                    if r[0] in ("fall", "continue"):
                        back.append(r[1])
                    elif r[0] == "break":
                        exits.append(r[1])
                    else:
                        out.append(r)
                after = head.copy()
                # what one iteration did is visible to the caller as having happened to an arbitrary element
                out += [("fall", e, None, n) for e in exits + back] + [("fall", after, None, n)]
        return out

    def bind_names(self, fr, s, v, val):
        if isinstance(val, tuple) and val and val[0] == "ref":
            l = val[1]
            val = self.load(s, l, None)
        if v.get("bind"):
            if isinstance(val, Obj):
                vals = list(val.f.values())
            else:
                vals = [self.opaque(s, ".%d" % i, [val] if isinstance(val, Term) else [], fr["f"].type(b["t"])) for i, b in enumerate(v["bind"])]
            for b, x in zip(v["bind"], vals):
                self.store(s, (fr["id"], b["d"]), x)
        self.store(s, (fr["id"], v["d"]), val)

    def declare(self, fr, n, states):
        out = []
        for s in states:
            todo = [s]
            for v in n.get("c") or ():
                if not isinstance(v, dict) or v["k"] != "VarDecl":
                    continue
                nxt = []
                for s1 in todo:
                    ty = fr["f"].type(v)
                    if not v.get("init"):
                        self.store(s1, (fr["id"], v["d"]), self.unknown(s1, ty))
                        nxt.append(s1)
                    elif ty.rstrip().endswith("&") and not v.get("bind"):
                        for s2, l in self.lval(fr, v["init"], s1, out):
                            s2.mem[("alias", (fr["id"], v["d"]))] = l
                            nxt.append(s2)
                    else:
                        for s2, val in self.expr(fr, v["init"], s1, out):
                            if s2.dead:
                                continue
                            self.bind_names(fr, s2, v, val)
                            nxt.append(s2)
                todo = nxt
            out += [("fall", s1, None, n) for s1 in todo]
        return out

    def switch(self, fr, n, states):
        out = []
        items = []                      # (labels, stmt)

        def flatten(x, labels):
            while isinstance(x, dict) and x["k"] in ("CaseStmt", "DefaultStmt", "AttributedStmt"):
                if x["k"] == "CaseStmt":
                    labels = labels + [x["v"]]
                elif x["k"] == "DefaultStmt":
                    labels = labels + [None]
                x = x.get("body") if x["k"] != "AttributedStmt" else (x.get("c") or [None])[0]
            items.append((labels, x))
        body = n.get("body")
        for x in (body.get("c") or ()) if isinstance(body, dict) and body["k"] == "CompoundStmt" else [body]:
            if isinstance(x, dict):
                flatten(x, [])

        def label(v):
            v = cxx.strip(v) if isinstance(v, dict) else v
            if v is None:
                return "default"
            if v["k"] == "EnumConst":
                return v["n"]
            if v["k"] in ("IntegerLiteral", "CharacterLiteral"):
                return int(v["v"])
            raise TooHard("case label " + v["k"])
        names = [[label(l) for l in ls] for ls, _ in items]
        every = [x for ls in names for x in ls]
        for s in [s for s in states if not s.dead]:
            for s1, v in self.expr(fr, n["cond"], s, out):
                if s1.dead:
                    continue
                if isinstance(v, tuple) and v and v[0] == "ref":
                    v = self.load(s1, v[1], None)
                starts = []
                if isinstance(v, Enum):
                    starts = [(s1, v.n)]
                elif isinstance(v, Num) or (isinstance(v, Obj) and v.t == INT):
                    x = self.num(v)
                    c = self.const(s1, x.p)
                    if c is not None:
                        starts = [(s1, c)]
                    else:
                        rest = s1.copy()
                        for l in every:
                            if isinstance(l, int):
                                s2 = s1.copy()
                                self.restrict(s2, x.p, ((l - 0, l - 0),)) if True else None
                                q = dict(x.p)
                                starts.append((s2, l))
                        starts.append((rest, "default"))
                else:
                    t = tname(getattr(v, "t", "") or fr["f"].type(n["cond"]))
                    en = self.prog.enums.get(t)
                    all_names = list(self.enum_names(en)) if en else [x for x in every if x != "default"] + ["(none)"]
                    for x in all_names:
                        s2 = s1.copy()
                        s2.mem[("known", ("app", getattr(v, "n", "?")) + tuple(self.vkey(s2, a) for a in getattr(v, "a", ())))] = Enum(x, t)
                        starts.append((s2, x))
                for s2, x in starts:
                    if s2.dead:
                        continue
                    at = next((i for i, ls in enumerate(names) if x in ls), None)
                    if at is None:
                        at = next((i for i, ls in enumerate(names) if "default" in ls), None)
                    if at is None:
                        out.append(("fall", s2, None, n))
                        continue
                    live = [s2]
                    for _, y in items[at:]:
                        nxt = []
                        for r in self.stmt(fr, y, live):
                            if r[0] == "fall":
                                nxt.append(r[1])
                            elif r[0] == "break":
                                out.append(("fall", r[1], None, n))
                            else:
                                out.append(r)
                        live = nxt
                        if not live:
                            break
                    out += [("fall", z, None, n) for z in live]
        return out

    def enum_names(self, en):
        return [x["n"] if isinstance(x, dict) else x for x in en.get("values") or ()]

    # ---- conditions ----------------------------------------------------------
    def cond(self, fr, n, st, out):
        n0 = n
        while n0["k"] in ("Temp", "ParenExpr") or (n0["k"] in cxx.CASTS and len(n0.get("c") or ()) == 1):
            n0 = n0["c"][0]
        if n0["k"] in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp") and n0.get("op") in ("==", "!=") and len(n0.get("c") or ()) == 2:
            res = []
            for s, (a, b) in self.many(fr, n0["c"], st, out):
                a, b = self.value(s, a), self.value(s, b)
                if isinstance(a, Enum) and isinstance(b, Enum):
                    res.append((s, (a.n == b.n) == (n0["op"] == "==")))
                    continue
                if isinstance(a, Term) and isinstance(b, Enum) or isinstance(b, Term) and isinstance(a, Enum):
                    tm, en = (a, b) if isinstance(a, Term) else (b, a)
                    key = ("app", tm.n) + tuple(self.vkey(s, x) for x in tm.a)
                    s1, s2 = s.copy(), s.copy()
                    s1.mem[("known", key)] = en
                    no = ("not", key, en.n)
                    if s.mem.get(no):
                        s1.dead = True
                    s2.mem[no] = True
                    res += [(s1, n0["op"] == "=="), (s2, n0["op"] != "==")]
                    continue
                if isinstance(a, Opt) or isinstance(b, Opt):
                    o, x = (a, b) if isinstance(a, Opt) else (b, a)
                    if isinstance(x, Opt) and x.engaged is False or "nullopt" in repr(getattr(x, "n", "")):
                        for e in ([o.engaged] if o.engaged is not None else [True, False]):
                            res.append((s.copy(), (not e) == (n0["op"] == "==")))
                        continue
                x, y = self.num(a), self.num(b)
                if x is not None and y is not None:
                    res += self.compare(s, x, y, n0["op"])
                    continue
                if isinstance(a, Null) != isinstance(b, Null) and isinstance(a, (Ptr, Null)) and isinstance(b, (Ptr, Null)):
                    res.append((s, n0["op"] != "=="))
                    continue
                if self.vkey(s, a) == self.vkey(s, b) and not isinstance(a, Unk):
                    res.append((s, n0["op"] == "=="))
                    continue
                t = self.opaque(s, "==", sorted([a, b], key=lambda v: repr(self.vkey(s, v))), "bool")
                res += self.compare(s, t, Num({}, "bool"), "!=" if n0["op"] == "==" else "==")
            return res
        if n0["k"] in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp", "UnaryOperator", "ConditionalOperator") and (
                n0.get("op") in ("&&", "||", "!", "<", "<=", ">", ">=") or n0["k"] == "ConditionalOperator"):
            return super().cond(fr, n0, st, out)
        res = []
        for s, v in self.expr(fr, n0, st, out):
            v = self.value(s, v)
            if isinstance(v, Null):
                res.append((s, False))
            elif isinstance(v, Ptr):
                res.append((s, True))
            elif isinstance(v, Opt):
                if v.engaged is not None:
                    res.append((s, v.engaged))
                else:
                    res += [(s.copy(), True), (s.copy(), False)]
            else:
                x = self.num(v)
                if x is None:
                    res += [(s.copy(), True), (s.copy(), False)]
                else:
                    res += self.compare(s, x, Num({}, x.t), "!=")
        return res

    def value(self, s, v):
        if isinstance(v, tuple) and v and v[0] == "ref":
            return self.load(s, v[1], None)
        return v

    # ---- lvalues and expressions ----------------------------------------------
    def lval(self, fr, n, st, out):
        k = n["k"]
        if k == "DeclRefExpr" and not n.get("fn"):
            return [(st, self.find(fr, st, n["d"]))]
        if k == "MemberExpr":
            b = n["c"][0] if n.get("c") else None
            if b is not None and b["k"] != "CXXThisExpr" and n.get("arrow"):
                r = []
                for s, v in self.expr(fr, b, st, out):
                    v = self.value(s, v)
                    if isinstance(v, Ptr):
                        r.append((s, ("fld", v.l, n["n"])))
                    else:
                        l = ("tmp", next(self.counter))
                        self.store(s, l, v)
                        r.append((s, ("fld", l, n["n"])))
                return r
        if k == "CXXOperatorCallExpr" and n.get("op") in ("*", "->") and len(n["c"]) == 1:
            r = []
            for s, v in self.expr(fr, n["c"][0], st, out):
                v = self.value(s, v)
                if isinstance(v, Opt) and v.v is not None:
                    l = ("tmp", next(self.counter))
                    self.store(s, l, v.v)
                    r.append((s, l))
                elif isinstance(v, Ptr):
                    r.append((s, v.l))
                else:
                    l = ("tmp", next(self.counter))
                    self.store(s, l, self.opaque(s, "deref", [v], fr["f"].type(n)))
                    r.append((s, l))
            return r
        return super().lval(fr, n, st, out)

    def expr(self, fr, n, st, out, want_l=False):
        f = fr["f"]
        k = n["k"]
        if k == "EnumConst":
            return [(st, Enum(n["n"], tname(f.type(n))))]
        if k == "DeclRefExpr" and not n.get("fn"):
            d = n["d"]
            if d != "std::nullopt" and not d.startswith("std::numeric_limits<"):
                l = self.find(fr, st, d)
                g = self.prog.vars.get(d)
                if l not in st.mem and g is not None:
                    v = cxx.strip(g["init"]) if g.get("init") else None
                    if isinstance(v, dict) and v["k"] == "IntegerLiteral" and "const" in f.type(n):
                        return [(st, Num(p_const(int(v["v"])), tname(f.type(n))))]
                    return [(st, self.opaque(st, d, [], f.type(n)))]
                return [(st, ("ref", l) if want_l else self.load(st, l, f.type(n)))]
        if k == "MemberExpr" and not n.get("fn"):
            b = (n.get("c") or [None])[0]
            if b is not None and not n.get("arrow") and b["k"] != "CXXThisExpr" and not b.get("lv"):
                res = []
                for s, v in self.expr(fr, b, st, out):
                    res.append((s, self.field(s, self.value(s, v), n["n"], f.type(n))))
                return res
            res = []
            for s, l in self.lval(fr, n, st, out):
                if want_l:
                    res.append((s, ("ref", l)))
                else:
                    res.append((s, self.load(s, l, f.type(n))))
            return res
        if k == "LambdaExpr":
            clo = Clo(n["f"], fr)
            # captures that make a new variable
            todo = [st]
            for c in n.get("caps") or ():
                if c.get("e") and c.get("d"):
                    nxt = []
                    for s in todo:
                        for s2, v in self.expr(fr, c["e"], s, out):
                            v = self.value(s2, v)
                            if c.get("by") == "copy" or self.find(fr, s2, c["d"]) not in s2.mem:
                                self.store(s2, (fr["id"], c["d"]), v)
                            nxt.append(s2)
                    todo = nxt
            return [(s, clo) for s in todo]
        if k == "UnaryOperator" and n.get("op") == "&":
            return [(s, Ptr(l)) for s, l in self.lval(fr, n["c"][0], st, out)]
        if k in ("UnaryOperator",) and n.get("op") == "*":
            res = []
            for s, v in self.expr(fr, n["c"][0], st, out):
                v = self.value(s, v)
                if isinstance(v, Ptr):
                    res.append((s, ("ref", v.l) if want_l else self.load(s, v.l, f.type(n))))
                else:
                    res.append((s, self.opaque(s, "deref", [v], f.type(n))))
            return res
        if k == "CXXNullPtrLiteralExpr":
            return [(st, Null())]
        if k == "StringLiteral":
            return [(st, Term("str:" + str(n.get("v")), (), "string"))]
        if k == "BinaryOperator" and n.get("op") == "=":
            res = []
            for s, v in self.expr(fr, n["c"][1], st, out):
                for s2, l in self.lval(fr, n["c"][0], s, out):
                    self.store(s2, l, self.value(s2, v))
                    res.append((s2, ("ref", l) if want_l else self.value(s2, v)))
            return res
        if k in cxx.CASTS and len(n.get("c") or ()) == 1:
            t = tname(f.type(n))
            res = []
            for s, v in self.expr(fr, n["c"][0], st, out):
                v = self.value(s, v)
                if isinstance(v, (Enum, Term, Clo, Ptr, Null)) or (isinstance(v, Obj) and v.t != INT):
                    res.append((s, v))
                elif t == INT or (isinstance(v, Obj) and v.t == INT):
                    x = self.num(v)
                    res.append((s, integer(x.p) if x is not None else self.unknown(s, INT)))
                elif isinstance(v, Num) and t in RANGES and t != "bool":
                    res.append((s, Num(v.p, t)))
                else:
                    res.append((s, v))
            return res
        return super().expr(fr, n, st, out, want_l)

    def many(self, fr, nodes, st, out):
        res = super().many(fr, nodes, st, out)
        return [(s, [self.value(s, v) for v in vs]) for s, vs in res]

    def construct(self, fr, n, st, out):
        f = fr["f"]
        t = tname(f.type(n))
        args = [c for c in n.get("c") or () if isinstance(c, dict) and c["k"] != "CXXDefaultArgExpr"]
        if t == INT or t in RANGES:
            res = []
            for s, vs in self.many(fr, args, st, out):
                x = self.num(vs[0]) if vs else Num({}, t)
                if x is None:
                    x = self.num(self.opaque(s, "toint", vs, INT))
                res.append((s, integer(x.p) if t == INT else Num(x.p, t)))
            return res
        if t == "gcs::IntervalSet<gcs::Integer>" and len(args) == 2 and all(tname(f.type(a)) == INT for a in args):
            return [(s, Term("IntervalSet", vs, t)) for s, vs in self.many(fr, args, st, out)]
        if t.startswith("std::optional<") or "nullopt_t" in t:
            res = []
            for s, vs in self.many(fr, args, st, out):
                if not vs or "nullopt" in (n.get("f") or ""):
                    res.append((s, Opt(False, None)))
                elif isinstance(vs[0], Opt):
                    res.append((s, vs[0]))
                else:
                    res.append((s, Opt(True, vs[0])))
            return res
        if n.get("copy") or n.get("move"):
            return [(s, vs[0]) for s, vs in self.many(fr, args[:1], st, out)]
        if n["k"] == "InitListExpr" and n.get("fields"):
            fields = n["fields"]
            res = []
            nodes = list(n.get("c") or ())
            for s, vs in self.many(fr, [c for c in nodes if isinstance(c, dict)], st, out):
                if "(base)" in fields:
                    res.append((s, Obj({"(base)%d" % i: v for i, v in enumerate(vs)}, t)))
                else:
                    d = {}
                    it = iter(vs)
                    for name, c in zip(fields, nodes):
                        if isinstance(c, dict):
                            v = next(it)
                            if c["k"] != "CXXDefaultInitExpr":
                                d[name] = v
                    res.append((s, Obj(d, t)))
            return res
        res = []
        for s, vs in self.many(fr, args, st, out):
            if t.startswith("std::variant<"):
                # converting construction: the value keeps its own type
                res.append((s, vs[0] if len(vs) == 1 else Term("ctor:" + t, vs, t)))
            elif t.startswith("std::pair<") and len(vs) == 2:
                res.append((s, Obj({"first": vs[0], "second": vs[1]}, t)))
            elif t.startswith("std::tuple<") and len(vs) > 1:
                res.append((s, Obj({str(i): v for i, v in enumerate(vs)}, t)))
            elif n["k"] == "InitListExpr" and len(vs) == 1 and getattr(vs[0], "t", None) == t:
                res.append((s, vs[0]))
            else:
                ctor = self.prog.fn(n.get("f") or "")
                o = self.by_ctor(ctor, vs, s, t, out)
                if o is None and not vs and n["k"] == "InitListExpr":
                    o = Obj({}, t)
                res.append((s, o if o is not None else (Obj({}, t) if not vs and t in self.prog.classes else Term("ctor:" + t, vs, t))))
        return res

    def by_ctor(self, ctor, vs, s, t, out):
        """A constructor that only initialises members from its arguments."""
        if ctor is None or ctor.r != "fn" or not ctor.get("inits"):
            return None
        fr = dict(f=ctor, id=next(self.counter), this=None, up=None)
        for p, v in zip(ctor["params"], vs):
            self.store(s, (fr["id"], p["d"]), v)
        d = {}
        for i in ctor["inits"]:
            if not i.get("n") or not isinstance(i.get("e"), dict):
                return None
            r = self.expr(fr, i["e"], s, [])
            if len(r) != 1:
                return None
            d[i["n"]] = self.value(s, r[0][1])
        return Obj(d, t)

    # ---- calls ---------------------------------------------------------------
    def dispatch(self, fr, closures, val, st, out, n):
        """visit: runs the member of the overload set that takes the value's alternative."""
        res = []
        vals = [(st, val)]
        if isinstance(val, Term) and tname(val.t).startswith("std::variant<"):
            vals = []
            for a in flat_alternatives(val.t):
                s = st.copy()
                key = ("alt", self.vkey(s, val))
                if s.mem.get(key, a) != a:
                    continue
                s.mem[key] = a
                vals.append((s, self.as_alternative(s, val, a)))
        for s, v in vals:
            t = getattr(v, "t", None)
            best = None
            for c in closures:
                r = self.prog.fns.get(c.key) or self.prog.insts.get(c.key)
                if r is None or not r["params"]:
                    continue
                pt = tname(r.type(r["params"][0]["t"])).rstrip("&").strip()
                if pt == t:
                    best = (0, c)
                    break
                if t in flat_alternatives(pt) and (best is None or best[0] > 1):
                    best = (1, c)
                if self.is_generic(r) and (best is None or best[0] > 2):
                    best = (2, c)
            if best is None:
                raise TooHard("no alternative for %s" % t)
            l = ("tmp", next(self.counter))
            self.store(s, l, v)
            res += self.invoke(fr, best[1], [("ref", l)], s, out, n)
        return res

    def as_alternative(self, st, val, t):
        return Term("as:" + t, [val], t)

    def call(self, fr, n, st, out, want_l=False):
        f = fr["f"]
        q = cxx.qcallee(n)
        nm = cxx.fname(n) or ""
        args = [c for c in n.get("c") or () if isinstance(c, dict) and c["k"] != "CXXDefaultArgExpr"]
        ty = f.type(n) if "t" in n else ""
        key = n.get("f") or ""
        obj = n.get("obj") if isinstance(n.get("obj"), dict) else None
        if n["k"] == "UserDefinedLiteral" or nm == 'operator""_i':
            lit = cxx.strip(args[0]) if args else None
            if lit is not None and lit["k"] == "IntegerLiteral" and tname(ty) == INT:
                return [(st, integer(p_const(int(lit["v"]))))]
            return [(st, Term("lit:%s" % (lit or {}).get("v"), (), tname(ty)))]
        if q in cxx.FORWARDERS and args:
            return self.expr(fr, args[0], st, out, want_l)
        op = n.get("op") if n["k"] == "CXXOperatorCallExpr" else None
        if op in ("+", "-", "*", "+=", "-=", "++", "--") and q.startswith(("gcs::operator", "gcs::Integer::operator")) and (
                tname(ty) == INT):
            if op in ("+=", "-=", "++", "--"):
                res = []
                rhs = args[1] if len(args) > 1 and op in ("+=", "-=") else None
                for s, v in (self.expr(fr, rhs, st, out) if rhs is not None else [(st, integer(p_const(1)))]):
                    for s2, l in self.lval(fr, args[0], s, out):
                        x, y = self.num(self.load(s2, l, INT)), self.num(self.value(s2, v))
                        if x is None or y is None:
                            r = self.unknown(s2, INT)
                        else:
                            r = integer(p_add(x.p, y.p, 1 if op[0] == "+" else -1))
                        self.store(s2, l, r)
                        res.append((s2, ("ref", l) if want_l else (integer(x.p) if n.get("postfix") else r)))
                return res
            res = []
            for s, vs in self.many(fr, args, st, out):
                xs = [self.num(v) for v in vs]
                if any(x is None for x in xs):
                    res.append((s, self.opaque(s, "op" + op, vs, INT)))
                elif len(xs) == 1:
                    res.append((s, integer({m: -c for m, c in xs[0].p.items()})))
                else:
                    res.append((s, integer(p_mul(xs[0].p, xs[1].p) if op == "*" else p_add(xs[0].p, xs[1].p, 1 if op == "+" else -1))))
            return res
        if op == "=" and len(args) == 2 and ("::operator=(" in key or key.startswith("std::")):
            lt = tname(f.type(args[0]))
            res = []
            for s, v in self.expr(fr, args[1], st, out):
                for s2, l in self.lval(fr, args[0], s, out):
                    v2 = self.value(s2, v)
                    if lt.startswith("std::optional<") and not isinstance(v2, Opt) and tname(f.type(args[1])) != lt:
                        v2 = Opt(False) if "nullopt" in tname(f.type(args[1])) else Opt(True, v2)
                    self.store(s2, l, v2)
                    res.append((s2, ("ref", l) if want_l else v2))
            return res
        if op in ("==", "!=", "<", "<=", ">", ">=") and tname(ty) == "bool":
            return [(s, Num(p_const(int(b)), "bool")) for s, b in self.cond(fr, n, st, out) if not s.dead]
        if nm == "contains" and obj is not None and len(args) == 1 and tname(ty) == "bool":
            res, plain = [], False
            s0 = st.copy()
            for s, (o, v) in self.many(fr, [obj, args[0]], s0, out):
                if not (isinstance(o, Term) and o.n == "IntervalSet" and len(o.a) == 2 and self.num(v) is not None):
                    plain = True
                    break
                x, lo, hi = self.num(v), self.num(o.a[0]), self.num(o.a[1])
                for s2, t in self.compare(s, x, lo, ">="):
                    if s2.dead:
                        continue
                    if not t:
                        res.append((s2, Num(p_const(0), "bool")))
                        continue
                    res += [(s3, Num(p_const(int(t3)), "bool")) for s3, t3 in self.compare(s2, x, hi, "<=") if not s3.dead]
            if not plain:
                return res
        if q in ("std::min", "std::max") and len(args) == 2 and tname(ty) in (INT,) or tname(ty) in RANGES and q in ("std::min", "std::max") and len(args) == 2:
            res = []
            for s, (a, b) in self.many(fr, args, st, out):
                x, y = self.num(a), self.num(b)
                if x is None or y is None:
                    res.append((s, self.opaque(s, q, [a, b], ty)))
                    continue
                for s2, t in self.compare(s, x, y, "<=" if q.endswith("min") else ">="):
                    if not s2.dead:
                        res.append((s2, a if t else b))
            return res
        # variants
        if q.endswith("::visit") and obj is not None and q.startswith("overloaded"):
            res = []
            for s, o in self.expr(fr, obj, st, out):
                o = self.value(s, o)
                clos = [v for v in o.f.values() if isinstance(v, Clo)] if isinstance(o, Obj) else []
                for s2, vs in self.many(fr, args, s, out):
                    if not clos or len(vs) != 1:
                        raise TooHard("visit of %d values" % len(vs))
                    res += self.dispatch(fr, clos, vs[0], s2, out, n)
            return res
        if q == "std::visit":
            res = []
            for s, vs in self.many(fr, args, st, out):
                o = vs[0]
                clos = [o] if isinstance(o, Clo) else [v for v in o.f.values() if isinstance(v, Clo)] if isinstance(o, Obj) else []
                if not clos or len(vs) != 2:
                    raise TooHard("visit of %d values" % (len(vs) - 1))
                res += self.dispatch(fr, clos, vs[1], s, out, n)
            return res
        if q in ("std::get_if", "std::holds_alternative", "std::get") and args:
            want = inner_types(key[len(q):key.index("(")] if "(" in key[len(q):] else key[len(q):])
            depth = 0
            targ = key[len(q):]
            # the first template argument
            d, end = 0, None
            for i, ch in enumerate(targ):
                d += ch == "<"
                d -= ch == ">"
                if d == 0:
                    end = i
                    break
            want = inner_types(targ[:end + 1])[0] if end else ""
            res = []
            if q == "std::get_if":
                for s, v in self.expr(fr, args[0], st, out):
                    v = self.value(s, v)
                    if not isinstance(v, Ptr):
                        res.append((s, self.opaque(s, "get_if", [v], ty)))
                        continue
                    x = self.load(s, v.l, None)
                    for s2, x2, b in self.alternative_test(s, x, want):
                        if b and x2 is not x:
                            l = ("tmp", next(self.counter))
                            self.store(s2, l, x2)
                        else:
                            l = v.l
                        res.append((s2, Ptr(l) if b else Null()))
                return res
            for s, vs in self.many(fr, args, st, out):
                for s2, x2, b in self.alternative_test(s, vs[0], want):
                    if q == "std::get":
                        if tname(getattr(vs[0], "t", "")).startswith(("std::pair<", "std::tuple<")) and want.rstrip("UL").isdigit() and isinstance(vs[0], Obj):
                            res.append((s2, list(vs[0].f.values())[int(want.rstrip("UL"))]))
                            break
                        if b:
                            res.append((s2, x2))
                        else:
                            out.append(("throw", s2, "bad_variant_access", n))
                    else:
                        res.append((s2, Num(p_const(int(b)), "bool")))
            return res
        # optionals
        if obj is not None and q.startswith("std::optional::") or (op in ("*", "->") and args and tname(f.type(args[0])).startswith("std::optional<")):
            m = q.split("::")[-1] if op is None else op
            res = []
            for s, o in self.expr(fr, obj if obj is not None else args[0], st, out):
                o = self.value(s, o)
                if not isinstance(o, Opt):
                    o = Opt(None, self.opaque(s, "optvalue", [o], ty))
                if m == "transform":
                    for s2, (c,) in self.many(fr, args[:1], s, out):
                        if o.engaged is not True:
                            res.append((s2.copy(), Opt(False, None)))
                        if o.engaged is not False and isinstance(c, Clo):
                            res += [(s3, Opt(True, v)) for s3, v in self.invoke(fr, c, [o.v], s2, out, n)]
                elif m in ("value_or",):
                    for s2, (d,) in self.many(fr, args[:1], s, out):
                        if o.engaged is not True:
                            res.append((s2.copy(), d))
                        if o.engaged is not False:
                            res.append((s2.copy(), o.v))
                elif m == "has_value" or m == "operator bool":
                    for e in ([o.engaged] if o.engaged is not None else [True, False]):
                        res.append((s.copy(), Num(p_const(int(e)), "bool")))
                elif m in ("value", "*", "operator*", "->", "operator->"):
                    res.append((s, o.v if o.v is not None else self.unknown(s, ty)))
                else:
                    res.append((s, self.opaque(s, m, [o], ty)))
            return res
        if q == "std::make_optional":
            return [(s, Opt(True, vs[0])) for s, vs in self.many(fr, args, st, out)]
        if q in ("std::make_pair", "std::make_tuple", "std::pair", "std::tuple"):
            return [(s, Obj({("first", "second")[i] if "pair" in q else str(i): v for i, v in enumerate(vs)}, tname(ty)))
                    for s, vs in self.many(fr, args, st, out)]
        # closures
        if op == "()" or (n["k"] == "CXXMemberCallExpr" and nm == "operator()"):
            target = obj if obj is not None else args[0]
            rest = args if obj is not None else args[1:]
            res = []
            for s, c in self.expr(fr, target, st, out):
                c = self.value(s, c)
                for s2, vs in self.arguments(fr, rest, s, out):
                    if isinstance(c, Clo):
                        res += self.invoke(fr, c, vs, s2, out, n)
                    else:
                        self.event(s2, "()", [c] + [self.value(s2, v) for v in vs], n)
                        res.append((s2, self.opaque(s2, "()", [c] + vs, ty)))
            return res
        callee = self.prog.fn(key)
        if callee is not None and callee.r == "fn" and callee.get("body") is not None and not callee.get("coro") and "::(ctor)" not in key and self.inline(callee):
            res = []
            starts = [(st, fr["this"])]
            rest = args
            if callee.get("cls") and not callee.get("st"):
                o = obj if obj is not None else (args[0] if n["k"] == "CXXOperatorCallExpr" else None)
                if n["k"] == "CXXOperatorCallExpr":
                    rest = args[1:]
                if o is not None and o["k"] != "CXXThisExpr":
                    starts = []
                    if n.get("arrow"):
                        for s, v in self.expr(fr, o, st, out):
                            v = self.value(s, v)
                            if isinstance(v, Ptr):
                                starts.append((s, v.l))
                            else:
                                l = ("tmp", next(self.counter))
                                self.store(s, l, v)
                                starts.append((s, l))
                    else:
                        starts = self.lval(fr, o, st, out)
            for s, th in starts:
                for s1, vs in self.arguments(fr, rest, s, out, callee):
                    for kind, s2, v, node in self.run(callee, vs, s1, th):
                        if kind == "throw":
                            out.append((kind, s2, v, node))
                        else:
                            res.append((s2, v if v is not None else UNK))
            return res
        # a call that is not analysed
        res = []
        ops = ([obj] if obj is not None else []) + args
        for s, vs in self.many(fr, ops, st, out):
            if n.get("noret"):
                out.append(("throw", s, nm, n))
                continue
            self.event(s, nm, vs, n)
            for a in args + ([obj] if obj is not None and not n.get("const") else []):
                if a.get("lv") or (a["k"] == "UnaryOperator" and a.get("op") == "&"):
                    r, _ = cxx.root_of(a)
                    if isinstance(r, dict) and r["k"] == "DeclRefExpr" and "const" not in f.type(a).split("<")[0]:
                        key2 = self.find(fr, s, r["d"])
                        if key2 in s.mem and not self.by_value(callee, args, a) and not isinstance(s.mem[key2], Clo):
                            s.mem[key2] = self.havoc(s, s.mem[key2])
            v = self.opaque(s, nm, vs, ty)
            res.append((s, v))
        return res

    def arguments(self, fr, nodes, st, out, callee=None):
        alts = [(st, [])]
        for i, a in enumerate(nodes):
            nxt = []
            byref = a.get("lv")
            if callee is not None and i < len(callee["params"]):
                byref = callee.type(callee["params"][i]["t"]).rstrip().endswith("&")
            for s, vs in alts:
                if byref:
                    nxt += [(s2, vs + [("ref", l)]) for s2, l in self.lval(fr, a, s, out)]
                else:
                    nxt += [(s2, vs + [self.value(s2, v)]) for s2, v in self.expr(fr, a, s, out)]
            alts = nxt
        return alts

    def alternative_test(self, st, x, want):
        """[(state, value as that alternative, truth)]"""
        t = getattr(x, "t", None)
        if t == want:
            return [(st, x, True)]
        if want.startswith("std::variant<"):
            if t in flat_alternatives(want):
                return [(st, x, True)]
        if t is None:
            return [(st.copy(), x, True), (st.copy(), x, False)]
        if tname(t).startswith("std::variant<"):
            key = ("alt", self.vkey(st, x))
            known = st.mem.get(key)
            if known is not None:
                return [(st, self.as_alternative(st, x, known), known == want)]
            res = []
            for a in flat_alternatives(t):
                s = st.copy()
                s.mem[key] = a
                res.append((s, self.as_alternative(s, x, a), a == want or a in flat_alternatives(want)))
            return res
        return [(st, x, False)]


class BoundClo(Clo):
    __slots__ = ("fn",)


def events(st, *names):
    return [e for e in st.mem.get(("events",), ()) if not names or e[0] in names]
