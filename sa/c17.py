"""C17: every alternative of a closed set of cases is handled.

Dispatches over closed sets are switches on enumerations, visitors over variants, if/else chains comparing
one value with enumerators or variant alternatives, and pointer-returning alternative tests.  For each:
  cover      every enumerator or alternative reaches code of its own (a label or handler naming it)
             (an alternative that only raises an error counts as unhandled beyond the reviewed table);
  shared     no two alternatives share code, and none is taken by a catch-all, beyond the reviewed table;
  inert      no alternative's code is empty, beyond the reviewed table;
  fallthru   no alternative's code runs on into the next one's;
  conversion no alternative is taken by a handler for another type through a conversion;
  off-end    no path through a function that yields a value runs off its end, so an alternative that
             reaches none of the handlers ends in an error rather than an arbitrary value;
  unchecked  the result of an alternative test that can be null is tested before it is used.
The reviewed table (c17_reviewed.json) bounds, per file and alternative, how many catch-all, shared and inert
treatments are deliberate; treating fewer that way is never reported."""
import collections
import json
import os
import re

import ir
from common import Report, main
from cxx import *
from ir import kids, walk

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c17_reviewed.json")
FALL, BREAK, CONT, EXIT = "fall", "break", "continue", "exit"
NORETURN = {"std::abort", "std::terminate", "std::exit", "std::unreachable", "__builtin_unreachable", "std::rethrow_exception",
            "std::_Exit", "std::quick_exit", "abort", "exit", "_exit", "__builtin_trap", "__builtin_abort", "std::throw_with_nested"}


def plain(t):
    t = re.sub(r"^const ", "", t.strip())
    return re.sub(r"( const)?\s*[&*]+$", "", t).strip()


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += {"<": 1, "(": 1, ">": -1, ")": -1}.get(ch, 0)
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def variant_of(t):
    t = plain(t)
    if t.startswith("std::variant<") and t.endswith(">"):
        return [plain(a) for a in split_args(t[len("std::variant<"):-1])]
    return None


def short_alt(a):
    a = strip_targs(a)
    return a.split("::")[-1] if "::" in a else a


class Flow:
    """How control leaves a statement."""

    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def noreturn(self, n):
        q = qcallee(n)
        if q in NORETURN:
            return True
        k = n.get("f")
        if not k:
            return False
        if k not in self.memo:
            self.memo[k] = False
            f = self.prog.fn(k) or (self.prog.fn(n["fp"]) if n.get("fp") else None)
            if f and f.get("body") and not f.get("coro"):
                b = f.get("body")
                self.memo[k] = self.out(b) == {EXIT} and not any(x["k"] in ("ReturnStmt", "CoreturnStmt") for x in walk(b, False))
        return self.memo[k]

    def expr_exits(self, n):
        """An expression statement that certainly does not complete."""
        n = strip(n)
        if not isinstance(n, dict):
            return False
        if n["k"] == "CXXThrowExpr":
            return True
        if n["k"] in CALLS and self.noreturn(n):
            return True
        if n["k"] == "BinaryOperator" and n.get("op") == ",":
            return any(self.expr_exits(c) for c in n["c"])
        return False

    @staticmethod
    def const_true(n):
        n = strip(n) if isinstance(n, dict) else n
        return isinstance(n, dict) and n["k"] in ("CXXBoolLiteralExpr", "IntegerLiteral", "BoolLit", "IntLit") and str(n.get("v")) in ("True", "true", "1")

    def out(self, n):
        if n is None:
            return {FALL}
        k = n["k"]
        if k == "CompoundStmt":
            return self.seq([c for c in n.get("c") or () if isinstance(c, dict)])
        if k in ("ReturnStmt", "CoreturnStmt", "CXXThrowExpr", "GotoStmt"):
            return {EXIT}
        if k == "BreakStmt":
            return {BREAK}
        if k == "ContinueStmt":
            return {CONT}
        if k == "IfStmt":
            if n.get("constexpr") and "ceval" in n:
                return self.out(n.get("then") if n["ceval"] else n.get("else"))
            if self.const_true(n.get("cond")):
                return self.out(n.get("then"))
            r = self.out(n.get("then")) if n.get("then") else {FALL}
            return r | (self.out(n["else"]) if n.get("else") else {FALL})
        if k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt"):
            b = self.out(n.get("body")) if n.get("body") else {FALL}
            r = set()
            if EXIT in b:
                r.add(EXIT)
            endless = k in ("WhileStmt", "DoStmt") and self.const_true(n.get("cond")) or k == "ForStmt" and (n.get("cond") is None or self.const_true(n.get("cond")))
            if k == "DoStmt" and not endless:
                if FALL in b or CONT in b or BREAK in b:
                    r.add(FALL)
                return r or {EXIT}
            if not endless or BREAK in b:
                r.add(FALL)
            return r or {EXIT}
        if k == "SwitchStmt":
            segs = segments(n)
            r, prev = set(), set()
            for labels, ss in segs:
                o = self.seq(ss)
                r |= o - {FALL, BREAK}
                if BREAK in o:
                    r.add(FALL)
                prev = o
            if FALL in prev or not segs:
                r.add(FALL)
            if not any(l is None for labels, _ in segs for l in labels):
                r.add(FALL)
            return r
        if k == "CXXTryStmt":
            r = self.out((n.get("c") or [None])[0] or n.get("body"))
            for h in n.get("handlers") or ():
                r = r | self.out(h.get("body") or ((h.get("c") or [None])[-1]))
            return r
        if k in ("AttributedStmt", "LabelStmt", "CaseStmt", "DefaultStmt"):
            r = {FALL}
            for c in kids(n):
                if c["k"] != "EnumConst":
                    r = self.out(c)
            return r
        if self.expr_exits(n):
            return {EXIT}
        return {FALL}

    def seq(self, ss):
        r = {FALL}
        for s in ss:
            if FALL not in r:
                return r
            r = (r - {FALL}) | self.out(s)
        return r


def segments(sw):
    """[(labels, statements)]; a label is an enumerator node, or None for default."""
    segs = []

    def unpeel(s, labels):
        while isinstance(s, dict) and s["k"] in ("CaseStmt", "DefaultStmt"):
            labels.append(s.get("v") if s["k"] == "CaseStmt" else None)
            nxt = s.get("body")
            s = nxt
        return s

    for s in statements(sw.get("body")):
        if s["k"] in ("CaseStmt", "DefaultStmt"):
            labels = []
            rest = unpeel(s, labels)
            segs.append((labels, [rest] if rest else []))
        elif segs:
            segs[-1][1].append(s)
    return segs


def flat(ss):
    r = []
    for s in ss:
        if isinstance(s, dict) and s["k"] == "CompoundStmt":
            r += flat([c for c in s.get("c") or () if isinstance(c, dict)])
        elif isinstance(s, dict) and s["k"] not in ("NullStmt",):
            r.append(s)
    return r


def inert(ss):
    """Nothing happens: only leaving statements that carry no value."""
    for s in flat(ss):
        if s["k"] in ("BreakStmt", "ContinueStmt"):
            continue
        if s["k"] == "ReturnStmt" and not [c for c in kids(s)]:
            continue
        if s["k"] in ("CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr") and not any(is_call(x) for x in walk(s)):
            continue
        if s["k"] == "AttributedStmt" and not any(is_call(x) for x in walk(s)):
            continue
        return False
    return True


class Checker:
    def __init__(self, prog, rep):
        self.prog, self.rep, self.flow = prog, rep, Flow(prog)
        self.used = collections.defaultdict(list)   # (file, kind, name) -> [(where, message)]
        self.counts = collections.Counter()
        self.seen = set()
        self.by_enum = {}
        for e in prog.enums.values():
            self.by_enum[e.key] = [v["n"] for v in e["values"]]

    def treat(self, file, kind, name, where, msg):
        self.used[(file, kind, name)].append((where, msg))

    # ---- switches
    def switch(self, f, sw, following):
        segs = segments(sw)
        cond_t = plain(f.type(sw["cond"])) if isinstance(sw.get("cond"), dict) else ""
        enum = cond_t if cond_t in self.by_enum else None
        if enum is None:
            for labels, _ in segs:
                for l in labels:
                    if l and l["k"] == "EnumConst":
                        enum = l["d"].rsplit("::", 1)[0]
                        break
        if enum is None or enum not in self.by_enum:
            self.counts["switches on other types"] += 1
            enum, universe = None, None
        else:
            universe = self.by_enum[enum]
            self.counts["enum switches"] += 1
        where = "%s:%s" % (f.file, sw["p"].split(":")[0])
        en = short_alt(enum or "value")
        handled, default = {}, None
        for i, (labels, ss) in enumerate(segs):
            o = self.flow.seq(ss)
            names = [l["n"] if l["k"] == "EnumConst" else None for l in labels if l is not None]
            if i + 1 < len(segs):
                ft = any(s["k"] == "AttributedStmt" and not any(is_call(x) for x in walk(s)) for s in flat(ss))
                self.rep.check(FALL not in o or ft, "fallthru", where, "%s|%s|%s" % (f.file, en, ",".join(map(str, names))),
                               "the code for %s of %s runs on into the next alternative's" % ("/".join(map(str, names)) or "default", en))
            if None in labels:
                default = (labels, ss, o)
            for nm in names:
                if nm:
                    handled[nm] = (labels, ss, o)
            if universe is not None:
                named = [nm for nm in names if nm]
                if o != {EXIT} or any(x["k"] == "ReturnStmt" for s in ss for x in walk(s, False)):
                    for a in named:
                        for b in named:
                            if a < b:
                                self.treat(f.file, "shared", "%s:%s+%s" % (en, a, b), where, "%s and %s of %s share code" % (a, b, en))
                    if None in labels:
                        pass
        if universe is None:
            return
        ends = self.flow.seq(following)
        raises = ends == {EXIT} and following and not any(x["k"] in ("ReturnStmt",) for s in following[:1] for x in walk(s, False)) and self.flow.out(following[0]) == {EXIT}
        for v in universe:
            sig = "%s|%s::%s" % (f.file, en, v)
            if v in handled:
                labels, ss, o = handled[v]
                if inert(ss) and not raises and None not in labels:
                    self.treat(f.file, "inert", "%s::%s" % (en, v), where, "nothing is done for %s::%s" % (en, v))
                self.rep.ok("cover", "%s %s" % (where, sig))
            elif default is not None:
                labels, ss, o = default
                if o == {EXIT} and not any(x["k"] == "ReturnStmt" for s in ss for x in walk(s, False)):
                    self.treat(f.file, "raises", "%s::%s" % (en, v), where, "%s::%s has no code of its own and only raises an error" % (en, v))
                elif inert(ss) and raises:
                    self.treat(f.file, "raises", "%s::%s" % (en, v), where, "%s::%s has no code of its own and only raises an error" % (en, v))
                else:
                    self.treat(f.file, "default", "%s::%s" % (en, v), where, "%s::%s has no code of its own and is taken by the default" % (en, v))
                    if inert(ss):
                        self.treat(f.file, "inert", "%s::%s" % (en, v), where, "nothing is done for %s::%s" % (en, v))
            elif raises:
                self.treat(f.file, "raises", "%s::%s" % (en, v), where, "%s::%s has no code of its own and only raises an error" % (en, v))
            else:
                self.treat(f.file, "missing", "%s::%s" % (en, v), where, "%s::%s reaches none of the alternatives and is ignored" % (en, v))

    # ---- visitors
    def handlers(self, f, h):
        h = strip(h)
        if not isinstance(h, dict):
            return [None]
        if h["k"] == "LambdaExpr":
            return [h]
        if h["k"] in ("InitListExpr", "CXXTemporaryObjectExpr", "CXXConstructExpr", "CXXUnresolvedConstructExpr", "ParenListExpr", "CXXParenListInitExpr"):
            r = []
            for c in h.get("c") or ():
                r += self.handlers(f, c)
            return r
        if h["k"] == "DeclRefExpr":
            for x in walk(f.get("body")):
                if x["k"] == "VarDecl" and x.get("d") == h.get("d") and x.get("init"):
                    return self.handlers(f, x["init"])
        return [None]

    def visit(self, f, x):
        q = qcallee(x)
        if q == "std::visit":
            h, vs = x["c"][0], x["c"][1:]
        elif q == "overloaded::visit":
            h, vs = x.get("obj") or ((x.get("callee") or {}).get("c") or [None])[0], x["c"]
        else:
            return
        vs = [v for v in vs if v]
        if h is None or not vs:
            return
        alts = [variant_of(f.type(v)) for v in vs]
        if any(a is None for a in alts):
            return
        key = (f.file, x["p"])
        if f.inst and key in self.seen:
            return
        self.seen.add(key)
        hs = self.handlers(f, h)
        where = "%s:%s" % (f.file, x["p"].split(":")[0])
        if all(l is None for l in hs):
            self.counts["visitors with a named function object"] += 1
            return
        self.counts["visitors"] += 1
        multi = len(vs) > 1
        combos = [()]
        for a in alts:
            combos = [c + (y,) for c in combos for y in a]
        exact_any = False
        for combo in combos:
            sig = "%s|%s" % (f.file, "+".join(short_alt(a) for a in combo))
            best = None
            for l in hs:
                if l is None:
                    best = best or ("opaque", None, 0)
                    continue
                ps = [f.type(p) for p in l.get("params") or ()]
                if len(ps) != len(combo):
                    continue
                score, kind = 0, []
                for p, a in zip(ps, combo):
                    pp = plain(p)
                    if pp == a:
                        kind.append("exact")
                    elif self.is_generic(pp):
                        kind.append("generic")
                    else:
                        kind.append("conv")
                rank = (kind.count("conv"), kind.count("generic"))
                if best is None or best[0] == "opaque" or rank < best[2]:
                    best = (("conv" if "conv" in kind else "generic" if "generic" in kind else "exact"), l, rank)
            if best is None or best[0] == "opaque":
                self.counts["alternatives left to a named function object"] += 1
                continue
            how, l, _ = best
            body_inert = inert(statements(l["body"]))
            if how == "conv":
                self.rep.bad("conversion", where, sig, "%s has no handler of its own and is taken by a handler for %s through a conversion" % (
                    "+".join(short_alt(a) for a in combo), ", ".join(short_alt(plain(f.type(p))) for p in l["params"])))
                continue
            self.rep.ok("cover", "%s %s" % (where, sig))
            nm = "+".join(short_alt(a) for a in combo)
            if how == "generic" and len([1 for y in hs if y is not None]) > 1 and not self.raises(l):
                self.treat(f.file, "catch-all", nm, where, "%s has no handler of its own and is taken by the catch-all" % nm)
            if body_inert and not multi:
                self.treat(f.file, "inert", nm, where, "nothing is done for %s" % nm)
        return

    def raises(self, l):
        b = l["body"]
        return self.flow.out(b) == {EXIT} and not any(y["k"] == "ReturnStmt" for y in walk(b, False))

    @staticmethod
    def is_generic(t):
        return "auto:" in t or t in ("auto", "auto:1") or "type-parameter" in t or t.startswith("auto")

    # ---- if / else-if chains over alternatives
    def tests(self, f, c):
        c = strip(c)
        if not isinstance(c, dict):
            return None
        if c["k"] in ("CXXOperatorCallExpr", "BinaryOperator"):
            if c.get("op") == "==" and len(c.get("c") or ()) == 2:
                a, b = [strip(y) for y in c["c"]]
                if a and a["k"] == "EnumConst":
                    a, b = b, a
                if b and b["k"] == "EnumConst" and a:
                    return [(self.name(a), b["n"], b["d"].rsplit("::", 1)[0])]
            if c.get("op") == "||":
                r = [self.tests(f, y) for y in c["c"]]
                return None if None in r else r[0] + r[1]
            return None
        if c["k"] == "CallExpr" and fname(c) in ("holds_alternative", "get_if"):
            t = variant_of(f.type(strip(c["c"][0])))
            m = re.match(r"std::(?:holds_alternative|get_if)<", c.get("f") or "")
            if t and m:
                first = split_args((c["f"][m.end():]))[0]
                return [(self.name(c["c"][0]), plain(first), tuple(t))]
        return None

    def name(self, n):
        n = strip(n)
        if not isinstance(n, dict):
            return "?"
        if n["k"] == "UnaryOperator" and n.get("op") in ("&", "*"):
            return self.name(n["c"][0])
        if n["k"] == "DeclRefExpr":
            return n.get("d")
        if n["k"] == "MemberExpr":
            b = (n.get("c") or [None])[0]
            return (self.name(b) if b else "this") + "." + n["n"]
        if is_call(n):
            return "%s(%s)" % (fname(n), ",".join(self.name(y) for y in kids(n)))
        return n["k"]

    def chain(self, f, x):
        tests, y, last, links = [], x, None, 0
        while isinstance(y, dict) and y["k"] == "IfStmt":
            c = y.get("cond")
            t = self.tests(f, c)
            if t is None and y.get("var"):
                for z in walk(y["var"]):
                    if z["k"] == "CallExpr" and fname(z) == "get_if":
                        t = self.tests(f, z)
                        break
            if t is None:
                return
            tests += t
            links += 1
            last = y.get("else")
            y = last
        if links < 2 or last is not None or len({t[0] for t in tests}) != 1 or len({t[2] for t in tests}) != 1:
            return
        kind = tests[0][2]
        universe = list(kind) if isinstance(kind, tuple) else self.by_enum.get(kind)
        if not universe:
            return
        self.counts["if chains"] += 1
        where = "%s:%s" % (f.file, x["p"].split(":")[0])
        for v in universe:
            if v not in {t[1] for t in tests}:
                self.treat(f.file, "missing", "chain:" + short_alt(v), where, "%s reaches none of the tests and is ignored" % short_alt(v))
            else:
                self.rep.ok("cover", "%s chain %s" % (where, short_alt(v)))

    # ---- possibly null alternative tests
    def nullable(self, f, body):
        guarded = set()
        src = {}
        for x in walk(body, False):
            if x["k"] == "VarDecl" and isinstance(x.get("init"), dict):
                i = strip(x["init"])
                if i and i["k"] == "CallExpr" and fname(i) == "get_if" or i and i["k"] == "CXXDynamicCastExpr" and f.type(i).endswith("*"):
                    src[x["d"]] = x
        for x in walk(body, False):
            d = None
            if x["k"] in ("UnaryOperator",) and x.get("op") == "*" or x["k"] == "MemberExpr" and x.get("arrow"):
                b = strip((x.get("c") or [None])[0])
                if isinstance(b, dict) and (b["k"] == "CallExpr" and fname(b) == "get_if" or b["k"] == "CXXDynamicCastExpr" and f.type(b).endswith("*")):
                    self.rep.bad("unchecked", "%s:%s" % (f.file, x["p"].split(":")[0]), "%s|%s" % (f.file, strip_targs(f.key)[:80]),
                                 "the result of an alternative test is used without testing that the alternative is present")
        if not src:
            return
        tested = set()
        for x in walk(body, True):
            c = x.get("cond")
            if x["k"] in ("IfStmt", "WhileStmt", "ForStmt", "ConditionalOperator", "DoStmt") or x["k"] == "BinaryOperator" and x.get("op") in ("&&", "||"):
                roots = [c, x.get("var")] if x["k"] != "BinaryOperator" else x.get("c") or []
                if x["k"] == "ConditionalOperator":
                    roots = [(x.get("c") or [None])[0], c]
                for r in roots:
                    for y in walk(r) if isinstance(r, dict) else ():
                        if y["k"] == "DeclRefExpr":
                            tested.add(y.get("d"))
                        if y["k"] == "VarDecl":
                            tested.add(y.get("d"))
            if x["k"] == "UnaryOperator" and x.get("op") == "!" or x["k"] in ("BinaryOperator",) and x.get("op") in ("==", "!="):
                for y in walk(x):
                    if y["k"] == "DeclRefExpr":
                        tested.add(y.get("d"))
        for d, v in src.items():
            used = False
            for x in walk(body):
                if x["k"] == "UnaryOperator" and x.get("op") == "*" or x["k"] == "MemberExpr" and x.get("arrow"):
                    b = strip((x.get("c") or [None])[0])
                    if isinstance(b, dict) and b["k"] == "DeclRefExpr" and b.get("d") == d:
                        used = True
            if used:
                self.rep.check(d in tested, "unchecked", "%s:%s" % (f.file, v["p"].split(":")[0]), "%s|%s" % (strip_targs(f.key)[:80], v.get("n")),
                               "the result of an alternative test is used without testing that the alternative is present")

    # ---- functions
    def function(self, f):
        body = f.get("body")
        if not body:
            return
        if not f.inst:
            self.dispatches(f, body)
        else:
            for x in walk(body):
                if is_call(x) and fname(x) == "visit" and (f.file, x["p"]) not in self.seen:
                    self.visit(f, x)
        ret = f.get("ret")
        name = f.get("n") or ""
        rt = f.type(ret) if ret is not None else "void"
        if name in ("main",) or f.get("coro") or rt == "void" or "(ctor)" in f.key or "(dtor)" in f.key:
            return
        if f.get("pattern") or "dependent" in rt or rt in ("auto",):
            return
        if not any(x["k"] == "ReturnStmt" for x in walk(body, False)) and self.flow.out(body) == {EXIT}:
            return
        if any(x["k"] == "IfStmt" and x.get("constexpr") and "ceval" not in x for x in walk(body, False)):
            return
        o = self.flow.out(body)
        self.rep.check(FALL not in o, "off-end", f.loc, strip_targs(f.key)[:120],
                       "a path runs off the end without yielding a value: an alternative reaching none of the cases raises no error")

    def dispatches(self, f, body):
        inner = set()

        def go(n, following):
            if not isinstance(n, dict):
                return
            if n["k"] == "LambdaExpr":
                go(n["body"], [])
                for c in n.get("caps") or ():
                    if isinstance(c.get("e"), dict):
                        go(c["e"], [])
                return
            if n["k"] == "SwitchStmt" and not f.inst:
                key = (f.file, n["p"])
                if key not in self.seen:
                    self.seen.add(key)
                    self.switch(f, n, following)
            if n["k"] == "IfStmt" and id(n) not in inner:
                y = n.get("else")
                while isinstance(y, dict) and y["k"] == "IfStmt":
                    inner.add(id(y))
                    y = y.get("else")
                key = (f.file, n["p"])
                if key not in self.seen:
                    self.seen.add(key)
                    self.chain(f, n)
            if is_call(n) and fname(n) == "visit":
                self.visit(f, n)
            if n["k"] == "CompoundStmt":
                cs = [c for c in n.get("c") or () if isinstance(c, dict)]
                for i, c in enumerate(cs):
                    go(c, cs[i + 1:] or following)
                return
            for c in kids(n):
                go(c, following if n["k"] in ("AttributedStmt", "LabelStmt") else [])
        go(body, [])
        self.nullable(f, body)

    def settle(self):
        table = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
        new = {}
        for (file, kind, name), uses in sorted(self.used.items()):
            allowed = table.get(file, {}).get("%s %s" % (kind, name), 0)
            new.setdefault(file, {})["%s %s" % (kind, name)] = len(uses)
            for i, (where, msg) in enumerate(uses):
                if len(uses) <= allowed:
                    self.rep.ok("reviewed " + kind, "%s %s" % (where, name))
                else:
                    self.rep.bad(kind, where, "%s|%s" % (file, name), msg + (" (%d such sites here, %d reviewed)" % (len(uses), allowed)))
        if os.environ.get("C17_WRITE"):
            json.dump(new, open(TABLE, "w"), indent=1, sort_keys=True)


def run():
    prog = ir.Program(ir.lib_units())
    rep = Report("C17", "other", __doc__.split("\n\n")[0], "every switch, visitor, alternative chain and value-yielding function in the library")
    ch = Checker(prog, rep)
    for f in list(prog.fns.values()) + list(prog.insts.values()):
        ch.function(f)
    ch.settle()
    for k, v in sorted(ch.counts.items()):
        rep.extra.setdefault("counted", {})[k] = v
    rep.floor("enum switches", ch.counts["enum switches"], 30)
    rep.floor("visitors", ch.counts["visitors"], 120)
    rep.floor("value-yielding functions", rep.by_kind.get("off-end", [0])[0], 400)
    rep.floor("alternatives covered", rep.by_kind.get("cover", [0])[0], 400)
    return rep.finish(prog)


if __name__ == "__main__":
    main(run)
