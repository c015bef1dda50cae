"""C02: clone() carries over everything that can be configured, each thing in its own role."""
import re
import sys
import common
import cxx
import ir
from ir import kids, walk

ROOTS = ("gcs::Constraint", "gcs::Presolver")
ARITH = {"-", "+", "*", "/", "%", "!", "~", "++", "--"}


def altering(n):
    """An operator in the expression that would change the value handed over."""
    for x in walk(n, into_lambdas=False):
        if x["k"] == "LambdaExpr":
            continue
        if x["k"] in ("UnaryOperator", "BinaryOperator", "CXXOperatorCallExpr", "CompoundAssignOperator") and x.get("op") in ARITH:
            if x.get("op") == "*" and len(x.get("c") or ()) == 1:
                continue
            return x
    return None


class Writes:
    """What a constructor or configuration method stores: path -> (param indexes, constant, altered)."""

    def __init__(self):
        self.by = {}

    def add(self, path, params, const=None, altered=None):
        e = self.by.setdefault(path, dict(params=set(), const=None, altered=None, n=0))
        e["params"] |= params
        e["n"] += 1
        if altered is not None:
            e["altered"] = altered
        if not params:
            e["const"] = const
        return e


class Checker:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.memo = {}
        self.methods = {}
        for d in (prog.fns, prog.insts):
            for f in d.values():
                if f.r == "fn" and "::" in f.key and not f.key.startswith("lambda@"):
                    c = f.get("cls")
                    if c:
                        self.methods.setdefault(c, {})[f.key] = f
        for f in prog.decls.values():
            c = f.get("cls")
            if c:
                self.methods.setdefault(c, {}).setdefault(f.key, f)

    def derived(self, key, seen=None):
        if key in ROOTS:
            return True
        c = self.prog.classes.get(key)
        return bool(c) and any(self.derived(b) for b in c["bases"])

    def ancestors(self, key):
        res = []
        c = self.prog.classes.get(key)
        while c:
            bs = [b for b in c["bases"] if b in self.prog.classes and b not in ROOTS]
            if not bs:
                break
            res.append(bs[0])
            c = self.prog.classes.get(bs[0])
        return res

    def fn(self, key):
        return self.prog.fn(key)

    def sources(self, f, n, taint):
        res = set()
        for d in cxx.refs(n):
            res |= taint.get(d, set())
        for x in walk(n):
            if x["k"] == "LambdaExpr":
                for c in x.get("caps") or ():
                    res |= taint.get(c.get("d"), set())
        return res

    def writes(self, key):
        """Fields written by a constructor or configuration method, with the parameters they come from."""
        if key in self.memo:
            return self.memo[key]
        w = Writes()
        self.memo[key] = w
        f = self.fn(key)
        if f is None or f.r != "fn":
            return w
        taint = {p["d"]: {i} for i, p in enumerate(f["params"])}

        def compose(callee, args):
            inner = self.writes(callee)
            for path, e in inner.by.items():
                srcs = set()
                for i in e["params"]:
                    if i < len(args) and args[i]:
                        srcs |= self.sources(f, args[i], taint)
                w.add(path, srcs, e["const"], e["altered"])

        for i in f.get("inits") or ():
            e = i.get("e")
            if i.get("n"):
                if e and not i.get("implicit"):
                    s = cxx.strip(e)
                    const = s.get("v") if isinstance(s, dict) and s["k"] in ("CXXBoolLiteralExpr", "IntegerLiteral", "EnumConst") else None
                    w.add(i["n"], self.sources(f, e, taint), const, altering(e))
            elif e and e.get("f"):
                compose(e["f"], e.get("c") or [])
        self.body_writes(f, f.get("body"), taint, w, compose)
        return w

    def body_writes(self, f, body, taint, w, compose):
        def ctrl(n):
            return self.sources(f, n, taint) if n else set()

        def visit(n, extra):
            if not isinstance(n, dict):
                return
            k = n["k"]
            if k == "DeclStmt":
                for v in n.get("c") or ():
                    s = self.sources(f, v.get("init"), taint) | extra if v.get("init") else set(extra)
                    taint[v["d"]] = taint.get(v["d"], set()) | s
                    for b in v.get("bind") or ():
                        taint[b["d"]] = s
            if k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and n.get("op") in ("=", "+=", "-=", "|=", "&=", "*="):
                l, r = n["c"][0], n["c"][1]
                p = cxx.this_path(l)
                src = self.sources(f, r, taint) | extra
                rs = cxx.strip(r)
                const = rs.get("v") if isinstance(rs, dict) and rs["k"] in ("CXXBoolLiteralExpr", "IntegerLiteral", "EnumConst") else None
                if p:
                    w.add(p, src, const, altering(r))
                else:
                    root, path = cxx.root_of(l)
                    if isinstance(root, dict) and root["k"] == "DeclRefExpr":
                        taint[root["d"]] = taint.get(root["d"], set()) | src
                    elif isinstance(root, dict) and root["k"] == "CXXThisExpr" and path:
                        w.add(path[0], src, None, None)
            if k == "CXXMemberCallExpr" and not n.get("const"):
                p = cxx.this_path(n.get("obj"))
                src = set(extra)
                for a in n.get("c") or ():
                    src |= self.sources(f, a, taint)
                if p:
                    w.add(p, src, None, None)
                elif isinstance(n.get("obj"), dict) and cxx.strip(n["obj"])["k"] == "CXXThisExpr" and n.get("f"):
                    compose(n["f"], n.get("c") or [])
                else:
                    root, _ = cxx.root_of(n.get("obj"))
                    if isinstance(root, dict) and root["k"] == "DeclRefExpr":
                        taint[root["d"]] = taint.get(root["d"], set()) | src
            e2 = extra
            if k in ("IfStmt", "WhileStmt", "SwitchStmt", "CXXForRangeStmt", "ForStmt", "ConditionalOperator"):
                e2 = extra | ctrl(n.get("cond") or n.get("range"))
                if k == "CXXForRangeStmt" and n.get("var"):
                    s = self.sources(f, n.get("range"), taint) | extra
                    taint[n["var"]["d"]] = s
                    for b in n["var"].get("bind") or ():
                        taint[b["d"]] = s
            for c in kids(n):
                visit(c, e2)

        for _ in range(2):
            visit(body, set())

    # ---- the clone() bodies -------------------------------------------------
    def creation(self, n):
        """(constructor key, args) if the expression creates the clone."""
        n0 = n
        while isinstance(n0, dict):
            if n0["k"] == "CallExpr" and n0.get("ctor"):
                return n0["ctor"], n0.get("c") or [], n0
            if n0["k"] == "CXXNewExpr":
                ce = n0["c"][0] if n0.get("c") else None
                while isinstance(ce, dict) and ce["k"] in ("Temp", "CXXFunctionalCastExpr", "InitListExpr") and ce.get("c"):
                    ce = ce["c"][0]
                if isinstance(ce, dict) and ce.get("f"):
                    return ce["f"], ce.get("c") or [], n0
                return None
            c = [x for x in n0.get("c") or () if isinstance(x, dict) and x["k"] != "CXXDefaultArgExpr"]
            if n0["k"] in ("Temp", "CXXConstructExpr", "CXXTemporaryObjectExpr") or n0["k"] in cxx.CASTS or (n0["k"] == "CallExpr" and cxx.qcallee(n0) in cxx.FORWARDERS):
                if len(c) == 1:
                    n0 = c[0]
                    continue
            return None
        return None

    def cond_facts(self, n, positive=True):
        """Member paths known to be unset (empty / false / null) when the condition has this truth value,
        and boolean members with known value."""
        n = cxx.strip(n)
        if not isinstance(n, dict):
            return set(), {}
        k = n["k"]
        if k == "UnaryOperator" and n.get("op") == "!" or k == "CXXOperatorCallExpr" and n.get("op") == "!":
            return self.cond_facts(n["c"][0], not positive)
        p = cxx.this_path(n)
        if p:
            return (set() if positive else {p}), {p: positive}
        if k == "CXXMemberCallExpr":
            p = cxx.this_path(n.get("obj"))
            if p and n.get("fnm") == "empty":
                return ({p} if positive else set()), {}
            if p and n.get("fnm") in ("has_value", "operator bool"):
                return (set() if positive else {p}), {p: positive}
        if k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            if (n["op"] == "&&") == positive:
                a, b = self.cond_facts(n["c"][0], positive), self.cond_facts(n["c"][1], positive)
                return a[0] | b[0], {**a[1], **b[1]}
        return set(), {}

    def arg_paths(self, f, n, env):
        res = set(cxx.this_paths(n))
        for d in cxx.refs(n):
            if d in env:
                res |= env[d]
        return res

    def analyse_clone(self, cls, f):
        rep = self.rep
        anc = [cls] + self.ancestors(cls)
        configured = {}
        ctor_writes = {}
        for c in anc:
            for key, m in self.methods.get(c, {}).items():
                if m.r != "fn":
                    continue
                is_ctor = "::(ctor)" in key
                if is_ctor and c == cls:
                    if len(m["params"]) == 1 and cxx.strip_targs(cls) in m.type(m["params"][0]["t"]):
                        continue
                    w = self.writes(key)
                    ctor_writes[key] = w
                    for p, e in w.by.items():
                        if e["params"]:
                            configured.setdefault(p, set()).add(key)
                elif not is_ctor and not m.get("const") and not m.get("st") and not m.get("virt") and m.get("access") == "public" \
                        and not m.get("overrides") and "(dtor)" not in key and "operator=" not in key:
                    for p, e in self.writes(key).by.items():
                        configured.setdefault(p, set()).add(key)
        # paths handled at the finest granularity written
        cfg = set(configured)
        fields_ok = {fl["n"] for c in anc for fl in (self.prog.classes[c]["fields"] if c in self.prog.classes else ())}
        cfg = {p for p in cfg if p.split(".")[0] in fields_ok}
        shortn = cls.replace("gcs::", "")

        env = {}
        states = []  # alternatives: dict(transferred, facts)

        def handle_call(key, args, node, st):
            w = self.writes(key)
            fd = self.fn(key) or self.prog.decls.get(key)
            by_param = {}
            for p, e in w.by.items():
                for i in e["params"]:
                    by_param.setdefault(i, set()).add(p)
            for i, a in enumerate(args):
                if a is None or a["k"] == "CXXDefaultArgExpr":
                    continue
                got = self.arg_paths(f, a, env)
                want = by_param.get(i, set())
                if not got:
                    continue
                both = {g for g in got for q in want if cxx.covers(g, q) or cxx.covers(q, g)}
                pname = fd["params"][i]["n"] if fd and i < len(fd["params"]) else "#%d" % i
                if want and not both:
                    rep.bad("argument-role", f.at(a), "%s param %s gets %s" % (cls, pname, ",".join(sorted(got))),
                            "%s::clone() hands %s to the parameter '%s', which configures %s" % (shortn, ", ".join(sorted(got)), pname, ", ".join(sorted(want))))
                    continue
                alt = altering(a)
                if alt is not None:
                    rep.bad("argument-altered", f.at(a), "%s param %s altered" % (cls, pname),
                            "%s::clone() changes %s (operator '%s') before handing it to '%s'" % (shortn, ", ".join(sorted(got)), alt.get("op"), pname))
                    continue
                for q in both:
                    if w.by.get(q, {}).get("altered") is not None and any(cxx.covers(q, c) for c in cfg):
                        rep.bad("not-idempotent", f.at(a), "%s %s altered by ctor" % (cls, q),
                                "%s::clone() passes the stored %s through a constructor/setter that transforms it again" % (shortn, q))
                rep.ok("argument-role", "%s::clone() '%s' <- %s" % (shortn, pname, ", ".join(sorted(got))))
                st["t"] |= {q for q in want if any(cxx.covers(g, q) for g in got)} | both
            st.setdefault("ctor_consts", {}).update({p: e["const"] for p, e in w.by.items() if e["const"] is not None and not e["params"]})

        def merge(n, sts):
            """Creation alternatives (through conditional expressions)."""
            n1 = n
            while isinstance(n1, dict) and (n1["k"] in ("Temp", "CXXConstructExpr") or n1["k"] in cxx.CASTS or (n1["k"] == "CallExpr" and cxx.qcallee(n1) in cxx.FORWARDERS)) and len([x for x in n1.get("c") or () if x]) == 1 and not self.creation(n1):
                n1 = n1["c"][0]
            if isinstance(n1, dict) and n1["k"] == "ConditionalOperator":
                cond = n1.get("cond") or n1["c"][0]
                a, b = n1["c"][-2], n1["c"][-1]
                res = []
                for branch, pos in ((a, True), (b, False)):
                    un, vals = self.cond_facts(cond, pos)
                    for st in merge(branch, sts) or []:
                        st["unset"] |= un
                        st["vals"].update(vals)
                        res.append(st)
                return res
            cr = self.creation(n)
            if cr:
                st = dict(t=set(), unset=set(), vals={}, cond=set(), node=cr[2], ctor=cr[0], copy=False)
                args = cr[1]
                if len(args) == 1 and args[0]:
                    s0 = cxx.strip(args[0])
                    if isinstance(s0, dict) and s0["k"] == "UnaryOperator" and s0.get("op") == "*" and s0["c"][0]["k"] == "CXXThisExpr":
                        st["copy"] = True
                        return [st]
                handle_call(cr[0], args, cr[2], st)
                return [st]
            return None

        objs = {}   # local id -> list of states

        def chain_root(n):
            """The local the (chained) configuration call is made on."""
            while True:
                n = cxx.strip(n)
                if not isinstance(n, dict):
                    return None
                if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("->", "*"):
                    n = n["c"][0]
                elif n["k"] == "UnaryOperator" and n.get("op") == "*":
                    n = n["c"][0]
                elif n["k"] == "CXXMemberCallExpr":
                    n = n.get("obj")
                elif n["k"] == "DeclRefExpr":
                    return n["d"]
                else:
                    return None

        result = []

        def apply(n, guard):
            k = n["k"]
            if k == "CXXMemberCallExpr":
                r = chain_root(n.get("obj"))
                if isinstance(n.get("obj"), dict):
                    inner = cxx.strip(n["obj"])
                    if isinstance(inner, dict) and inner["k"] == "CXXMemberCallExpr":
                        apply(inner, guard)
                if r in objs and n.get("f"):
                    for st in objs[r]:
                        before = set(st["t"])
                        handle_call(n["f"], n.get("c") or [], n, st)
                        guard_filter(st, before, guard)
            elif k in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=":
                root, path = cxx.root_of(n["c"][0])
                if isinstance(root, dict) and root["k"] == "DeclRefExpr" and root["d"] in objs and path:
                    tgt = ".".join(path)
                    got = self.arg_paths(f, n["c"][1], env)
                    for st in objs[root["d"]]:
                        before = set(st["t"])
                        if any(cxx.covers(g, tgt) or cxx.covers(tgt, g) for g in got):
                            if altering(n["c"][1]) is not None:
                                rep.bad("argument-altered", f.at(n), "%s %s altered" % (cls, tgt), "%s::clone() changes %s while copying it" % (shortn, tgt))
                            else:
                                rep.ok("argument-role")
                                st["t"] |= {g for g in got} | {tgt}
                        elif got:
                            rep.bad("argument-role", f.at(n), "%s field %s gets %s" % (cls, tgt, ",".join(sorted(got))),
                                    "%s::clone() stores %s in %s" % (shortn, ", ".join(sorted(got)), tgt))
                        guard_filter(st, before, guard)

        def guard_filter(st, before, guard):
            for un, vals, other in guard:
                # something is only transferred under a condition: fine when the other side means the member is unset
                for p in set(st["t"]) - before:
                    if not any(cxx.covers(u, p) for u in other):
                        st["t"].discard(p)
                        st["cond"].add(p)

        def stmts(n, guard):
            for s in cxx.statements(n):
                k = s["k"]
                if k == "DeclStmt":
                    for v in s.get("c") or ():
                        if v.get("init"):
                            m = merge(v["init"], None)
                            if m:
                                objs[v["d"]] = m
                                continue
                            env[v["d"]] = self.arg_paths(f, v["init"], env)
                elif k == "IfStmt":
                    cond = s.get("cond")
                    un, vals = self.cond_facts(cond, True)
                    un2, vals2 = self.cond_facts(cond, False)
                    stmts(s.get("then"), guard + [(un, vals, un2)])
                    if s.get("else"):
                        stmts(s.get("else"), guard + [(un2, vals2, un)])
                elif k == "ReturnStmt":
                    e = s["c"][0] if s.get("c") else None
                    e0 = cxx.strip(e)
                    if isinstance(e0, dict) and e0["k"] == "DeclRefExpr" and e0["d"] in objs:
                        result.extend(objs[e0["d"]])
                    else:
                        m = merge(e, None)
                        if m is None:
                            # a copy helper: follow one call into the class itself
                            raise ir.Broken("%s: clone() returns something this analysis does not recognise" % f.at(s))
                        result.extend(m)
                elif k == "CompoundStmt":
                    stmts(s, guard)
                elif k in ("CXXForRangeStmt", "ForStmt"):
                    for x in walk(s):
                        if x["k"] == "DeclStmt":
                            for v in x.get("c") or ():
                                env[v["d"]] = self.arg_paths(f, v.get("init"), env)
                    if k == "CXXForRangeStmt" and s.get("var"):
                        env[s["var"]["d"]] = self.arg_paths(f, s.get("range"), env)
                    stmts(s.get("body"), guard)
                elif cxx.is_call(s) or k == "BinaryOperator":
                    if s["k"] == "CXXMemberCallExpr":
                        # filling a local container that is handed over later
                        r = chain_root(s.get("obj"))
                        if r and r not in objs:
                            env.setdefault(r, set())
                            for a in s.get("c") or ():
                                env[r] |= self.arg_paths(f, a, env)
                            continue
                    apply(s, guard)

        stmts(f.get("body"), [])
        if not result:
            raise ir.Broken("%s: no returned object found in clone()" % f.loc)
        for st in result:
            made = cxx.strip_targs(st["ctor"].split("::(ctor)")[0])
            if not rep.check(made == cxx.strip_targs(cls), "same-class", f.loc, "%s creates %s" % (cls, made), "%s::clone() creates a %s" % (shortn, made)):
                continue
            if st["copy"]:
                for p in sorted(cfg):
                    rep.ok("carried", "%s.%s by copy construction" % (shortn, p))
                continue
            for p in sorted(cfg):
                if any(cxx.covers(t, p) for t in st["t"]):
                    rep.ok("carried", "%s.%s" % (shortn, p))
                    continue
                if any(cxx.covers(u, p) for u in st["unset"]):
                    rep.ok("carried", "%s.%s (known unset on this branch)" % (shortn, p))
                    continue
                # a boolean member says which constructor was used: this field can only have been set by
                # constructors that give it the other value
                disc = [d for d, v in st["vals"].items() if isinstance(v, bool)]
                setters = configured.get(p, set())
                consts = st.get("ctor_consts", {})
                # constants stored by the constructor itself (e.g. the discriminator) need no transfer if they agree
                if p in consts and p in st["vals"] and bool(consts[p]) == st["vals"][p]:
                    rep.ok("carried", "%s.%s implied by the constructor" % (shortn, p))
                    continue
                if disc and all("::(ctor)" in s for s in setters) and all(
                        any(d in ctor_writes[s].by and ctor_writes[s].by[d]["const"] is not None and bool(ctor_writes[s].by[d]["const"]) != st["vals"][d] for d in disc)
                        for s in setters if s in ctor_writes):
                    rep.ok("carried", "%s.%s not set by the constructor this branch stands for" % (shortn, p))
                    continue
                how = "only under a condition" if p in st["cond"] else "nowhere"
                by = sorted({s.split("(")[0].split("::")[-1] or "constructor" if "(ctor)" not in s else "constructor" for s in setters})
                rep.bad("carried", f.loc, "%s.%s" % (cls, p), "%s is configured by %s but %s::clone() carries it over %s" % (p, "/".join(by), shortn, how))
        self.analysed += 1
        self.cfg_total += len(cfg)

    def run(self):
        self.analysed = 0
        self.cfg_total = 0
        rep = self.rep
        for key, c in sorted(self.prog.classes.items()):
            if c.get("pattern") or key in ROOTS or not self.derived(key):
                continue
            own = {k: m for k, m in self.methods.get(key, {}).items()}
            clone = [m for m in own.values() if m["n"] == "clone" and m.r == "fn"]
            decl = [m for m in own.values() if m["n"] == "clone"]
            if clone:
                self.analyse_clone(key, clone[0])
                continue
            if decl:
                if decl[0].get("pure"):
                    continue
                # instantiated class templates: the definition is keyed by the instance
                cands = [m for k, m in self.prog.insts.items() if m.get("cls") == key and m["n"] == "clone"]
                if cands:
                    self.analyse_clone(key, cands[0])
                continue
            # inherits clone(): it must add nothing of its own, or the copy loses it
            anc = self.ancestors(key)
            has = [a for a in anc if any(m["n"] == "clone" and not m.get("pure") for m in self.methods.get(a, {}).values())]
            if not has:
                continue
            shortn = key.replace("gcs::", "")
            rep.check(not c["fields"], "inherited-clone", c.loc, "%s fields" % key,
                      "%s adds members (%s) but is copied by %s::clone()" % (shortn, ", ".join(x["n"] for x in c["fields"]), has[0]), "%s adds no members" % shortn)
            ov = [m for m in own.values() if m.get("overrides") and "(dtor)" not in m.key and not m.get("deleted")]
            rep.check(not ov, "inherited-clone", c.loc, "%s overrides" % key,
                      "%s overrides %s but is copied as %s, which loses the override" % (shortn, ", ".join(m["n"] for m in ov), has[0]))
        self.identity()
        rep.floor("clone() bodies", self.analysed, 45)
        rep.floor("configured members", self.cfg_total, 120)

    def identity(self):
        """Where the problem copies a constraint, the copy gets its identity before it is used."""
        n = 0
        for f in self.prog.fns.values():
            if f.get("pattern") or not f.get("body") or f["n"] == "clone":
                continue
            body = f["body"]
            for x in walk(body):
                if x["k"] == "CXXMemberCallExpr" and x.get("fnm") == "clone" and (x.get("f") or "").startswith("gcs::Constraint::clone"):
                    n += 1
                    self.one_identity(f, body, x)
        self.rep.floor("places constraints are copied", n, 3)

    def one_identity(self, f, body, call):
        # the variable holding the copy
        holder = None
        for x in walk(body):
            if x["k"] == "VarDecl" and x.get("init") and any(y is call for y in walk(x["init"])):
                holder = x
        src = cxx.root_of(call.get("obj"))[0]
        where = f.at(call)
        fn = f["q"]
        if holder is None:
            self.rep.bad("identity", where, "%s copy unnamed" % fn, "%s copies a constraint and uses the copy without giving it an identity" % fn)
            return
        order = [x for x in walk(body)]
        set_at, use_at, arg_ok = None, None, True
        for i, x in enumerate(order):
            if x["k"] == "CXXMemberCallExpr" and x.get("fnm") == "set_constraint_id" and cxx.root_of(x.get("obj"))[0].get("d") == holder["d"]:
                if set_at is None:
                    set_at = i
                    a = (x.get("c") or [None])[0]
                    asks = [y for y in walk(a) if y["k"] == "CXXMemberCallExpr" and y.get("fnm") == "constraint_id"]
                    if asks and any(cxx.root_of(y.get("obj"))[0].get("d") == holder["d"] for y in asks):
                        arg_ok = False
            elif x["k"] in cxx.CALLS and use_at is None:
                if x.get("fnm") in ("install", "push_back", "emplace_back", "push_front", "insert", "emplace") and holder["d"] in cxx.refs(x):
                    use_at = i
        good = set_at is not None and use_at is not None and set_at < use_at and arg_ok
        self.rep.check(good, "identity", where, "%s identity" % fn,
                       "%s copies a constraint but %s" % (fn, "does not give the copy its identity before using it" if arg_ok else "sets the copy's identity from the copy itself"),
                       "%s sets the identity of the copy before it is stored or installed" % fn)


def run():
    prog = ir.Program(ir.lib_units())
    rep = common.Report("C02", rule="every configured member of a constraint/presolver reaches its own role in the object clone() returns",
                        explanation="For each class derived from Constraint or Presolver: the members its constructors and configuration methods store "
                        "(dataflow from parameters), against the arguments, setter calls and member assignments of clone(), resolved to the constructor actually called.")
    Checker(prog, rep).run()
    return rep.finish(prog)


if __name__ == "__main__":
    common.main(run)
