"""Explores code with the assertion level fixed."""
from ir import kids, walk
from cxx import fname, CALLS
from flow import Engine, St, TooHard, NN, NULL, TRUE, FALSE
from c17 import plain

LEVEL = "gcs::AssertionLevel"
WRAPS = ("Temp", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "ImplicitCastExpr", "InitListExpr", "ParenExpr", "CXXStaticCastExpr")
ASSERT = ("gcs::innards::AssertProofRule", "gcs::innards::AssertRatherThanJustifying")


def is_level(f, n):
    return isinstance(n, dict) and "t" in n and plain(f.type(n)) == LEVEL


class Level(Engine):
    """Every reading of the assertion level gives the one level asked about."""
    max_depth = 8
    cap = 6000

    def __init__(self, prog, level, order):
        super().__init__(prog)
        self.level, self.order = level, order
        self.inlined = set()
        self.reached = set()
        self.small = {}

    def should_inline(self, rec, n):
        if rec.key in self.inlined:
            return True
        if rec.key not in self.small:
            t = plain(rec.type(rec["ret"])) if "ret" in rec.d else ""
            self.small[rec.key] = t in ("bool", LEVEL) and any(is_level(rec, x) for x in walk(rec["body"]))
        return self.small[rec.key]

    def expr(self, fr, n, st):
        if isinstance(n, dict):
            x = n
            while isinstance(x, dict):
                self.reached.add((fr["f"].file, x.get("p"), x["k"]))
                cs = [c for c in x.get("c") or () if isinstance(c, dict)]
                x = cs[0] if len(cs) == 1 and x["k"] in WRAPS else None
            n = self.peel(n)
            if not isinstance(n, dict):
                return [(st, None)]
            self.reached.add((fr["f"].file, n.get("p"), n["k"]))
            if n["k"] in ("MemberExpr", "DeclRefExpr", "CXXMemberCallExpr", "CallExpr") and is_level(fr["f"], n) and n["k"] != "EnumConst":
                if n["k"] == "DeclRefExpr":
                    v = self.get(st, self.place(fr, n, st) or "?")
                    if v is not None:
                        return [(st, v)]
                    r = st.env.get(n.get("d"))
                    if any(p["d"] == n.get("d") for p in fr["f"]["params"]) and (r is None or r[0] != "ref" or "." not in r[1]):
                        return [(st, None)]
                return [(st, ("c", self.level))]
            if n["k"] == "BinaryOperator" and n.get("op") in ("<", ">", "<=", ">="):
                r = self.on_cond(fr, n, st)
                if r is not None:
                    return [(s, TRUE if b else FALSE) for s, b in r]
            if n["k"] == "LambdaExpr":
                self.later(fr, n, st)
        return super().expr(fr, n, st)

    def later(self, fr, n, st):
        """What a closure does when it is run is done under the same level."""
        for rec in self.bodies(n):
            if rec.key in self.stack:
                continue
            s = st
            for p in rec["params"]:
                s = self.bind(s, p["d"], None)
            self.run(rec, s, fr["this"], [None] * len(rec["params"]))

    def bodies(self, n):
        r = self.prog.fn(n.get("f"))
        if r is not None and r.get("body") and not n.get("generic"):
            return [r]
        insts = [x for k, x in self.prog.insts.items() if (k.startswith((n.get("f") or "?") + "#<") or k.startswith((n.get("f") or "?") + "!<")) and x.get("body")]
        return insts[:3] or ([r] if r is not None and r.get("body") else [])

    def on_cond(self, fr, n, st):
        op = n.get("op")
        cs = n.get("c") or ()
        if op in ("<", ">", "<=", ">=") and len(cs) == 2 and (is_level(fr["f"], self.peel(cs[0])) or is_level(fr["f"], self.peel(cs[1]))):
            out = []
            for s, a in self.expr(fr, cs[0], st):
                for s2, b in self.expr(fr, cs[1], s):
                    a, b = a or self.const(cs[0]), b or self.const(cs[1])
                    if a and b and a[0] == b[0] == "c" and a[1] in self.order and b[1] in self.order:
                        x, y = self.order.index(a[1]), self.order.index(b[1])
                        out.append((s2, {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]))
                    else:
                        out += [(s2, True), (s2, False)]
            return out
        return None
