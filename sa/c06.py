"""C06: backtracking restores the search state exactly."""
import re

import ir
from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS, root_of
from common import Report, main
from flow import Engine, St, TooHard, NULL, NN, TRUE, FALSE, params_of
from c17 import plain
from c07 import ts_get, ts_set, short_fn
import props

NEW, BACK, GUESS, UNDO = ("gcs::innards::State::" + x for x in ("new_epoch", "backtrack", "guess", "on_backtrack"))
STATE = "gcs::innards::State"


class Rule(Engine):
    """Shared obligation bookkeeping."""

    def __init__(self, prog, rep):
        super().__init__(prog)
        self.rep, self.done, self.seen = rep, set(), {}
        self.failed = False
        self.quiet = False

    def need(self, ok, kind, f, n, what, msg):
        self.seen[kind] = self.seen.get(kind, 0) + 1
        if ok is False:
            self.failed = True
        k = (kind, n.get("p"), what, ok)
        if k in self.done or self.quiet:
            return
        self.done.add(k)
        if ok is None:
            self.rep.undecided(kind, f.at(n), what, msg)
        else:
            self.rep.check(ok, kind, f.at(n), what, msg, "%s %s" % (f.at(n), kind))


# ---------------------------------------------------------------- search levels
class Epochs(Rule):
    """Every search level opened is closed, innermost first, on every way out."""

    def __init__(self, prog, rep, fn, extra=()):
        super().__init__(prog, rep)
        self.fn, self.inlined, self.count = fn, set(extra), 0
        self.escaped = False
        self.sites = {}

    def should_inline(self, rec, n):
        return rec.key in self.inlined

    def token(self, v):
        return isinstance(v, tuple) and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "epoch"

    def on_call(self, fr, n, st, name, key, args):
        if n.get("op") == "=":
            return None
        q = strip_targs(qcallee(n))
        f = fr["f"]
        open_ = ts_get(st, "open", ())
        if q == NEW:
            if len(open_) > 6:
                self.need(False, "level-closed", f, n, short_fn(self.fn), "search levels are opened again and again without being closed")
                return []
            t = ("s", ("epoch", n.get("p"), len(open_)))
            self.sites[n.get("p")] = n
            return [("val", ts_set(st, open=open_ + (t,)), t)]
        if q == BACK:
            v = args[0] if args else None
            if not self.token(v):
                self.need(None, "level-closed", f, n, short_fn(self.fn), "which level this closes was not followed")
                self.escaped = True
                return [("val", ts_set(st, open=()), None)]
            ok = v in open_
            self.need(ok, "level-closed", f, n, short_fn(self.fn), "this closes a level that is not open here: it was already closed, or an enclosing one was closed before it")
            return [("val", ts_set(st, open=open_[:open_.index(v)] if ok else ()), None)]
        if q == GUESS:
            self.need(bool(open_), "guess-inside-a-level", f, n, short_fn(self.fn), "a decision is made while no level of its own is open, so nothing undoes it")
            return [("val", st, None)]
        if any(self.token(a) for a in args) and not (n["k"] in ("CXXConstructExpr",) and (n.get("copy") or n.get("move"))):
            rec = self.prog.fn(key) if key else None
            if rec is None or rec.key not in self.inlined:
                self.escaped = True
        return None


def level_owner_chain(prog, rec, callers):
    """The functions to fall back on when a helper opens or closes a level for its caller."""
    out = []
    if rec.get("lambda") and rec.get("parent"):
        p = prog.fn(rec["parent"])
        if p is not None:
            out.append(p)
    elif "(anonymous namespace)" in rec.key or rec.get("access") == "private":
        out += callers.get(rec.key, ())
    return out


def epochs(prog, rep):
    users, callers = {}, {}
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if f.get("pattern") or f.get("cls") == STATE:
                continue
            for x in walk(f.get("body"), False):
                if x["k"] in CALLS:
                    if strip_targs(qcallee(x)) in (NEW, BACK, GUESS):
                        users[k] = f
                    if x.get("f"):
                        callers.setdefault(x["f"], []).append(f)
                elif x["k"] == "LambdaExpr" and x.get("f"):
                    callers.setdefault(x["f"], []).append(f)

    def analyse(f, inlined, quiet):
        e = Epochs(prog, rep, f, inlined)
        e.quiet = quiet
        leak = None
        try:
            for kind, s, v in e.run(f, St()):
                if kind == "return" and ts_get(s, "open", ()):
                    leak = ts_get(s, "open")[0]
        except TooHard as t:
            return e, "hard", str(t)
        return e, "leak" if leak else "bad" if e.failed else "ok", leak

    n = 0
    for k, f in sorted(users.items()):
        e, verdict, why = analyse(f, (), True)
        if verdict in ("leak", "bad") or e.escaped:
            # opened or closed on behalf of whoever calls it?
            ups, seen = level_owner_chain(prog, f, callers), {k}
            inl = {k}
            tried = []
            for _ in range(3):
                nxt = []
                for u in ups:
                    if u.key in seen:
                        continue
                    seen.add(u.key)
                    e2, v2, w2 = analyse(u, inl, True)
                    tried.append((u, v2))
                    if v2 != "ok":
                        inl.add(u.key)
                        nxt += level_owner_chain(prog, u, callers)
                if not nxt:
                    break
                ups = nxt
            if tried and tried[-1][1] == "ok" and any(v == "ok" for _, v in tried) and all(v == "ok" for u, v in tried if not any(u.key == x for x in inl)):
                for u, v in tried:
                    if v == "ok":
                        analyse(u, inl, False)
                rep.ok("level-closed", "%s via its callers" % f.loc)
                n += 1
                continue
        n += 1
        if verdict == "hard":
            rep.undecided("level-closed", f.loc, short_fn(f), why)
            continue
        e, verdict, why = analyse(f, (), False)
        if e.escaped:
            rep.undecided("level-closed", f.loc, short_fn(f), "the handle of a search level leaves the function")
            continue
        rep.check(verdict != "leak", "level-closed", f.loc, short_fn(f), "a way out of this function leaves a search level open, so what was done inside it is never undone", "%s closes every level it opens" % f.loc)
    rep.floor("functions that open, close or decide in a search level", n, 2)


# ---------------------------------------------------------------- what a level is made of
def container_fields(prog, cls):
    """field -> 'level' (one entry per open level) or 'flat'."""
    return {x["n"]: x for x in cls.get("fields") or ()}


class Levels(Rule):
    """Sizes of the lists that make up the search state, symbolically."""

    def __init__(self, prog, rep, levels, flats, callbacks, stamp):
        super().__init__(prog, rep)
        self.levels, self.flats, self.callbacks, self.stamp = levels, flats, callbacks, stamp
        self.fields_ = list(levels) + list(flats)
        self.looped = False

    def should_inline(self, rec, n):
        return rec.get("cls") == STATE or "(anonymous namespace)" in rec.key

    def field_of(self, p):
        if p is None:
            return None, ""
        for f in self.fields_:
            m = re.search(r"(?:^|\.)" + re.escape(f) + r"((?:\.\[\])*)$", p)
            if m:
                return f, m.group(1)
        return None, ""

    def size(self, st, f):
        return ts_get(st, "n:" + f, ("size", f, 0))

    def setsize(self, st, f, v):
        return ts_set(st, **{"n:" + f: v})

    def bump(self, v, d):
        return ("size", v[1], v[2] + d) if v[0] == "size" else ("mid",)

    def on_call(self, fr, n, st, name, key, args):
        k = n["k"]
        if n.get("op") == "=":
            return None
        f = fr["f"]
        obj = n.get("obj") if isinstance(n.get("obj"), dict) else None
        if k == "CXXMemberCallExpr" and obj is not None:
            p = self.place(fr, obj, st)
            fld, sub = self.field_of(p)
            if fld is not None and sub == "":
                if name == "size":
                    v = self.size(st, fld)
                    return [("val", st, ("s", v) if v[0] in ("size", "stamp") else ("s", ("cur", fld)))]
                if name in ("push_back", "emplace_back"):
                    arg = [c for c in n.get("c") or () if isinstance(c, dict)]
                    what = "empty"
                    if arg:
                        ap = self.place(fr, arg[0], st)
                        ff, ss = self.field_of(ap)
                        what = "other" if self.first_of(arg[0]) else "copy" if ff == fld and ss == ".[]" else "?" if ff is None and not self.is_empty(arg[0]) else "empty" if ff is None else "other"
                    pushed = ts_get(st, "push:" + fld, ())
                    st = ts_set(st, **{"push:" + fld: pushed + (what,)})
                    return [("val", self.setsize(st, fld, self.bump(self.size(st, fld), 1)), None)]
                if name == "pop_back":
                    if fld == self.callbacks:
                        self.undo(bool(ts_get(st, "ran", False)), f, n, "a level is dropped without running every undo action registered in it")
                        st = ts_set(st, ran=None)
                    v = self.size(st, fld)
                    return [("val", self.setsize(st, fld, ("mid",) if v[0] in ("above", "mid") else self.bump(v, -1)), None)]
                if name in ("resize", "clear"):
                    v = args[0] if args and name == "resize" else None
                    if fld == self.callbacks:
                        self.undo(bool(ts_get(st, "allran", False)), f, n, "levels are dropped without running the undo actions registered in them")
                    nv = v[1] if v is not None and v[0] == "s" and v[1][0] in ("stamp", "size", "off") else ("?",)
                    if name == "clear":
                        nv = ("zero",)
                    return [("val", self.setsize(st, fld, nv), None)]
                if name == "erase":
                    v = args
                    nv = ("?",)
                    if len(v) == 2 and v[0] is not None and v[1] == ("s", ("it", fld, "end")) and v[0][0] == "s" and v[0][1][0] == "it" and v[0][1][1] == fld:
                        nv = v[0][1][2]
                        if nv == "begin":
                            nv = ("zero",)
                    return [("val", self.setsize(st, fld, nv if isinstance(nv, tuple) else ("?",)), None)]
                if name in ("begin", "cbegin"):
                    return [("val", st, ("s", ("it", fld, "begin")))]
                if name in ("end", "cend"):
                    return [("val", st, ("s", ("it", fld, "end")))]
                if name in ("back", "front", "empty", "at"):
                    return None
                if not n.get("const"):
                    return [("val", self.setsize(st, fld, ("?",)), None)]
        if k == "CXXOperatorCallExpr" and n.get("op") == "+" and len(args) == 2:
            a, b = args
            if a is not None and a[0] == "s" and a[1][0] == "it" and a[1][2] == "begin" and b is not None and b[0] == "s":
                return [("val", st, ("s", ("it", a[1][1], b[1])))]
        if name in ("next",) and len(args) == 2 and args[0] is not None and args[0][0] == "s" and args[0][1][0] == "it" and args[1] is not None and args[1][0] == "s":
            return [("val", st, ("s", ("it", args[0][1][1], args[1][1])))]
        if k == "CXXOperatorCallExpr" and n.get("op") == "()" and n.get("c"):
            v = args[0] if args else None
            if v == ("s", ("undo",)):
                return [("val", ts_set(st, called=True), None)]
        return None

    def first_of(self, n):
        """The element an expression names is the first of its list."""
        n = self.peel(n)
        return isinstance(n, dict) and n["k"] == "CXXMemberCallExpr" and fname(n) == "front"

    def is_empty(self, n):
        n = self.peel(n)
        return isinstance(n, dict) and n["k"] in ("CXXConstructExpr", "InitListExpr", "CXXTemporaryObjectExpr", "CXXScalarValueInitExpr") and not list(kids(n))

    def on_other(self, fr, n, st):
        if n["k"] == "MemberExpr" and not n.get("fn"):
            b = (n.get("c") or [None])[0]
            b2 = self.peel(b) if isinstance(b, dict) else None
            deref = isinstance(b2, dict) and (b2["k"] == "DeclRefExpr" and b2["d"] == self.stamp)
            if deref:
                return [(st, st.env.get(self.stamp + "." + n["n"]) or ("s", ("stamp", n["n"])))]
        if n["k"] in ("UnaryOperator", "CXXOperatorCallExpr") and n.get("op") == "*" and len(n.get("c") or ()) == 1 or n["k"] == "CXXMemberCallExpr" and fname(n) == "value" and isinstance(n.get("obj"), dict):
            x = n["obj"] if n["k"] == "CXXMemberCallExpr" else n["c"][0]
            p = self.place(fr, x, st)
            if p is not None and p.startswith(str(self.stamp) + "."):
                return [(st, ("s", ("stamp", p[len(self.stamp) + 1:])))]
        if n["k"] == "BinaryOperator" and n.get("op") in ("-", "+"):
            res = []
            for s, a in self.expr(fr, n["c"][0], st):
                for s2, b in self.expr(fr, n["c"][1], s):
                    if a is not None and a[0] == "s" and a[1][0] == "size" and b is not None and b[0] == "c" and isinstance(b[1], int):
                        res.append((s2, ("s", self.bump(a[1], b[1] if n["op"] == "+" else -b[1]))))
                    elif a is not None and a[0] == "s" and a[1][0] == "stamp" and b is not None and b[0] == "c" and isinstance(b[1], int) and b[1] != 0:
                        res.append((s2, ("s", ("off", a[1]))))
                    else:
                        res.append((s2, None))
            return res
        return None

    def on_cond(self, fr, n, st):
        if n["k"] in ("BinaryOperator", "CXXOperatorCallExpr", "RewrittenOp") and n.get("op") in ("<", ">", "<=", ">=", "!=", "=="):
            ops = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}
            a, b = n["c"][0], n["c"][1]
            op = n["op"]
            res = []
            for s, va in self.expr(fr, a, st):
                for s2, vb in self.expr(fr, b, s):
                    x, y, o = va, vb, op
                    fa, fb = self.sized(fr, a, s2), self.sized(fr, b, s2)
                    if fa is None and fb is not None:
                        fa, y, o = fb, va, ops[op]
                    if fa is None or y is None or y[0] != "s" or y[1][0] != "stamp":
                        return None
                    want = y[1]
                    cur = self.size(s2, fa)
                    # at least as many levels as recorded are open when a level is closed
                    if o == "<":
                        res.append((s2, False))
                    elif o == ">=":
                        res.append((s2, True))
                    elif o in (">", "!=", "==", "<="):
                        more = o in (">", "!=")
                        if cur == want:
                            res.append((s2, not more))
                        else:
                            res.append((self.setsize(s2, fa, ("above",)), more))
                            res.append((self.setsize(s2, fa, want), not more))
            return res
        return None

    def sized(self, fr, n, st):
        n = self.peel(n)
        if isinstance(n, dict) and n["k"] == "CXXMemberCallExpr" and fname(n) == "size" and isinstance(n.get("obj"), dict):
            fld, sub = self.field_of(self.place(fr, n["obj"], st))
            return fld if sub == "" else None
        return None

    def undo(self, ok, f, n, msg):
        """Undo actions run by a form other than a loop over the level's list are not followed."""
        if not ok and not self.looped and any(strip_targs(qcallee(x)).startswith(("std::function::operator()", "std::for_each", "std::ranges::for_each", "std::invoke")) or x.get("op") == "()"
                                              for k in self.fns_seen | {f.key} if self.prog.fn(k) for x in walk(self.prog.fn(k).get("body")) if x["k"] in CALLS):
            ok = None
        self.need(ok, "undo-actions-run", f, n, self.callbacks, msg)

    def range_for(self, fr, n, states):
        rng = n.get("range")
        outs, plainly = [], []
        for s in states:
            p = self.place(fr, rng, s) if isinstance(rng, dict) else None
            fld, sub = self.field_of(p)
            if fld == self.callbacks and sub == ".[]":
                self.looped = True
            if fld == self.callbacks and sub == ".[]":
                s0 = ts_set(s, called=None)
                if isinstance(n.get("var"), dict):
                    s0 = self.bind(s0, n["var"]["d"], ("s", ("undo",)))
                ok, after = True, []
                for o in self.stmt(fr, n.get("body"), [s0]):
                    if o[0] in ("fall", "continue") and ts_get(o[1], "called"):
                        after.append(o[1])
                    else:
                        ok = False
                        if o[0] in ("fall", "continue", "break"):
                            after.append(o[1])
                        else:
                            outs.append(o)
                for x in after or [s]:
                    x = ts_set(x, called=None)
                    if isinstance(n.get("var"), dict):
                        x = self.bind(x, n["var"]["d"], None)
                    outs.append(("fall", ts_set(x, ran=True if ok else None), None))
            else:
                plainly.append(s)
        if plainly:
            outs += super().range_for(fr, n, plainly)
        return outs


def state_levels(prog, rep):
    imp = next((c for k, c in prog.classes.items() if k == STATE + "::Imp"), None)
    newf = [f for f in prog.fns.values() if strip_targs(f.get("q") or "") == NEW]
    backf = [f for f in prog.fns.values() if strip_targs(f.get("q") or "") == BACK]
    if imp is None or not newf or not backf:
        raise ir.Broken("the search state's representation was not found")
    newf, backf = newf[0], backf[0]
    fields = {}
    for x in imp.get("fields") or ():
        fields[x["n"]] = plain(imp.type(x["t"]))
    lists = {n: t for n, t in fields.items() if re.match(r"std::(__cxx11::)?(list|vector|deque)<", t)}
    levels = [n for n, t in lists.items() if re.match(r"std::(__cxx11::)?(list|vector|deque)<\s*std::(vector|list|deque)<", t)]
    flats = [n for n in lists if n not in levels]
    callbacks = next((n for n in levels if "function<" in lists[n]), None)
    rep.floor("lists that make up the search state", len(lists), 4)
    rep.extra["search state"] = dict(levels=levels, flat=flats, undo_actions=callbacks)
    if callbacks is None:
        raise ir.Broken("the list of undo actions was not found")
    # which of the lists the rest of the class changes
    changed = {}
    for f in prog.fns.values():
        if f.get("cls") != STATE or f.key in (newf.key, backf.key):
            continue
        e = Levels(prog, rep, levels, flats, callbacks, None)
        fr = dict(f=f, this="this", out=[])
        for x in walk(f.get("body")):
            if x["k"] == "CXXMemberCallExpr" and not x.get("const") and fname(x) in ("push_back", "emplace_back", "pop_back", "erase", "resize", "clear", "insert") and isinstance(x.get("obj"), dict):
                fld, sub = e.field_of(e.place(fr, x["obj"], St()))
                if fld and sub == "":
                    changed.setdefault(fld, []).append((f, x))
    # opening a level
    e = Levels(prog, rep, levels, flats, callbacks, None)
    stampcls = None
    for kind, s, v in e.run(newf, St()):
        if kind != "return":
            continue
        for l in levels:
            rep.check(e.size(s, l) == ("size", l, 1), "level-opened", newf.loc, l, "opening a level does not add exactly one entry to '%s' on every path" % l)
            want = "empty" if l == callbacks else "copy"
            got = ts_get(s, "push:" + l, ())
            if got == ("?",):
                rep.undecided("level-starts-as-copy", newf.loc, l, "what a new level starts from was not followed")
            else:
                rep.check(got == (want,), "level-starts-as-copy", newf.loc, l, "a new level's '%s' does not start as %s" % (l, "empty" if want == "empty" else "a copy of the enclosing level's"))
        for l in flats:
            rep.check(e.size(s, l) == ("size", l, 0), "level-opened", newf.loc, l, "opening a level changes '%s'" % l)
    # what the handle records
    recorded = {}
    ret = None
    for x in walk(newf.get("body"), False):
        if x["k"] == "ReturnStmt":
            ret = x
    cands = [x for x in walk(ret) if x["k"] in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXParenListInitExpr") and len(list(kids(x))) >= 2 and "Timestamp" in newf.type(x)] if ret else []
    tc = next((c for k, c in prog.classes.items() if k.endswith("::Timestamp")), None)
    if not cands or tc is None:
        rep.undecided("handle-records-sizes", newf.loc, "Timestamp", "what the handle of a level records was not followed")
    else:
        names = [x["n"] for x in tc.get("fields") or ()]
        vals = {}

        class Rec(Levels):
            def on_other(self, fr, n, st):
                if n.get("p") == cands[0].get("p") and n["k"] == cands[0]["k"]:
                    cur = [(st, ())]
                    for c in cands[0].get("c") or ():
                        cur = [(s2, acc + (v,)) for s, acc in cur for s2, v in self.expr(fr, c, s)]
                    for s, acc in cur:
                        for nm, v in zip(names, acc):
                            vals.setdefault(nm, set()).add(v)
                    return [(cur[0][0], None)]
                return super().on_other(fr, n, st)

            def on_call(self, fr, n, st, name, key, args):
                q = strip_targs(qcallee(n))
                if q in ("std::make_optional",) and len(args) == 1:
                    return [("val", st, args[0])]
                return super().on_call(fr, n, st, name, key, args)
        e2 = Rec(prog, rep, levels, flats, callbacks, None)
        e2.quiet = True
        e2.run(newf, St())
        for nm, vs in vals.items():
            for v in vs:
                if v is not None and v[0] == "s" and v[1][0] == "size":
                    recorded.setdefault(nm, set()).add(v[1][1:])
                elif v != NULL:
                    recorded.setdefault(nm, set()).add(None)
    # closing a level
    stamp = backf["params"][0]["d"]
    e = Levels(prog, rep, levels, flats, callbacks, stamp)
    ends = []
    for kind, s, v in e.run(backf, St()):
        if kind == "return":
            ends.append(s)
        else:
            rep.bad("level-closed-in-full", backf.loc, "throw", "closing a level can end in an exception with the level half closed")
    e.need(bool(e.seen.get("undo-actions-run")), "undo-actions-run", backf, backf.get("body"), callbacks, "undo actions are never run when a level is closed")

    def records(nm, fld, delta):
        r = recorded.get(nm)
        return r is None or not tc or (fld, delta) in r and all(x == (fld, delta) or x is None for x in r)

    for s in ends:
        for l in levels:
            v = e.size(s, l)
            if v[0] == "?":
                rep.undecided("level-closed-in-full", backf.loc, l, "how many entries of '%s' are left was not followed" % l)
                continue
            ok = v[0] == "stamp" and (recorded.get(v[1]) is None or all(x is not None and x[0] in levels and x[1] == 0 for x in recorded[v[1]]))
            rep.check(ok, "level-closed-in-full", backf.loc, l, "closing a level does not bring '%s' back to the number of levels that were open before it" % l)
        for l in flats:
            if l not in changed:
                continue
            v = e.size(s, l)
            if v[0] == "?":
                rep.undecided("level-closed-in-full", backf.loc, l, "how many entries of '%s' are left was not followed" % l)
                continue
            opt = any("optional" in tc.type(x["t"]) and recorded.get(x["n"]) == {(l, 0)} for x in (tc.get("fields") or ())) if tc else False
            ok = v[0] == "stamp" and records(v[1], l, 0) or opt and v == ("size", l, 0)
            rep.check(ok, "level-closed-in-full", backf.loc, l, "closing a level does not bring '%s' back to what was recorded when the level was opened" % l)
        if any(e.size(s, l) == ("size", l, 0) for l in flats if l in changed):
            pass
    for l in flats:
        if l in changed and ends and all(e.size(s, l) == ("size", l, 0) for s in ends):
            rep.bad("level-closed-in-full", backf.loc, l + "|never", "closing a level never brings '%s' back" % l)
    rep.floor("ways of closing a level", len(ends), 1)


# ---------------------------------------------------------------- the propagation engine
IMP = "gcs::innards::Propagators::Imp"
STORE, STRAIL, SCRATCH, CTRAIL, IDLE = "refined_watches_by_var", "refined_watch_edit_trail", "watch_state_by_propagator", "watch_state_trail", "idle_end"
INBOX, PENDING, FUNCS = "inbox_by_propagator", "pending_inbox_owners", "propagation_functions"


def tail(p):
    """(field, suffix) of a place inside the engine's data."""
    if p is None:
        return None, ""
    m = re.search(r"(?:^|\.)(%s)((?:\.\[\]|\.\w+|\.\*)*)$" % "|".join((STORE, STRAIL, SCRATCH, CTRAIL, IDLE, INBOX, PENDING, FUNCS)), p)
    return (m.group(1), m.group(2)) if m else (None, "")


class Watch(Rule):
    """Every edit of data that is undone on backtracking is recorded on its trail, and
    the undo is registered before the first edit and puts everything back."""

    def __init__(self, prog, rep, fn, search):
        super().__init__(prog, rep)
        self.fn, self.search = fn, search
        self.mode = "do"
        self.guesses = next((p["d"] for p in fn["params"] if "Literal" in plain(fn.type(p["t"])) and "vector" in plain(fn.type(p["t"])) or plain(fn.type(p["t"])).endswith("Literals")), None)
        self.undone = set()

    def should_inline(self, rec, n):
        c = rec.get("cls") or ""
        return c == IMP or c == "gcs::innards::Propagators" and rec.key != self.fn.key or "(anonymous namespace)" in rec.key and "recheck" not in rec.key

    def remember(self, memo):
        return False

    def what(self, s):
        return "%s|%s" % (short_fn(self.fn), s)

    def cnt(self, st, k, d):
        v = ts_get(st, k, 0) + d
        return ts_set(st, **{k: max(-2, min(2, v)) or None})

    def edited(self, fr, n, st, fld):
        if self.search and self.mode == "do":
            self.need(ts_get(st, "reg:" + (STRAIL if fld == STORE else CTRAIL), False), "undo-registered-first", fr["f"], n, self.what(fld),
                      "'%s' can be changed before anything is registered that would undo the change on backtracking" % fld)
        return st

    # -- values
    def on_other(self, fr, n, st):
        k = n["k"]
        if k in ("MemberExpr", "DeclRefExpr", "CXXOperatorCallExpr", "ArraySubscriptExpr", "CXXMemberCallExpr"):
            if k == "MemberExpr" and n.get("fn") or k == "CXXOperatorCallExpr" and n.get("op") not in ("[]", "*", "->") or k == "CXXMemberCallExpr" and fname(n) not in ("back", "at", "front"):
                return None
            if k == "DeclRefExpr" and st.env.get(n["d"], ("",))[0] != "ref":
                return None
            p = self.place(fr, n, st)
            f, s = tail(p)
            if f == STORE and s == ".[].[]":
                return [(st, ("s", ("watch", ts_get(st, "moved", False))))]
            if f == SCRATCH and s == ".[].[]":
                return [(st, ("s", ("scratch", ts_get(st, "wrote", False))))]
            if f == IDLE and s == "":
                return [(st, ("s", ("idle", ts_get(st, "idlev", 0))))]
            if f in (STRAIL, CTRAIL) and s.startswith(".[]"):
                return [(st, ("s", ("entry", f, s[3:])))]
        return None

    def list_values(self, fr, node, st):
        """Values of the members of an aggregate being built."""
        x = node
        while isinstance(x, dict) and (x["k"] in ("Temp",) or x["k"] in ("CXXConstructExpr", "InitListExpr") and len(list(kids(x))) == 1 and (strip(x) is not x)):
            y = next(iter(kids(x)))
            if y is x:
                break
            x = y
        x = self.peel(x)
        vals = []
        if isinstance(x, dict) and x["k"] in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXParenListInitExpr"):
            for c in x.get("c") or ():
                if isinstance(c, dict):
                    r = self.expr(fr, c, st)
                    vals.append(r[0][1] if r else None)
            return vals
        return None

    def on_call(self, fr, n, st, name, key, args):
        k = n["k"]
        if n.get("op") == "=":
            return None
        f = fr["f"]
        q = strip_targs(qcallee(n))
        obj = n.get("obj") if isinstance(n.get("obj"), dict) else None
        cs = [c for c in n.get("c") or () if isinstance(c, dict)]
        if q == UNDO:
            v = args[0] if args else None
            if v is None or v[0] != "clo":
                self.need(None, "undo-registered-first", f, n, self.what("closure"), "what is registered to be undone was not followed")
                return [("val", ts_set(st, **{"reg:" + STRAIL: True, "reg:" + CTRAIL: True, "reg:" + IDLE: True}), None)]
            return [("val", self.register(fr, n, st, v), None)]
        if k == "CXXMemberCallExpr" and obj is not None:
            p = self.place(fr, obj, st)
            fld, sub = tail(p)
            if name == "size" and fld in (STRAIL, CTRAIL) and sub == "":
                if self.mode == "undo":
                    return [("val", st, ("s", ("cur", fld)))]
                clean = not ts_get(st, "edits:" + fld, False)
                return [("val", st, ("s", ("snap", fld, clean)))]
            if fld == STORE and sub == ".[]":
                if name in ("push_back", "emplace_back"):
                    st = self.edited(fr, n, st, STORE)
                    if self.mode == "undo":
                        ok = args and args[0] is not None and args[0][0] == "s" and args[0][1][:2] == ("entry", STRAIL) and args[0][1][2] not in ("",)
                        return [("val", ts_set(self.cnt(st, "uadd", 1), ugood=True if ok else None), None)]
                    return [("val", self.cnt(ts_set(st, hot=True), "add", 1), None)]
                if name == "pop_back":
                    st = self.edited(fr, n, st, STORE)
                    if self.mode == "undo":
                        return [("val", self.cnt(st, "urem", 1), None)]
                    return [("val", ts_set(self.cnt(ts_set(st, hot=True), "rem", 1), moved=None), None)]
                if name in ("erase", "clear", "resize", "insert", "swap", "assign"):
                    self.need(None, "edit-recorded", f, n, self.what(STORE), "this kind of change to the armed watches is not followed")
                    return [("val", ts_set(st, lost=True), None)]
                if name in ("back", "size", "begin", "end", "empty", "at"):
                    return None
            if fld == STRAIL and sub == "":
                if name in ("push_back", "emplace_back"):
                    vals = self.list_values(fr, cs[0], st) if len(cs) == 1 else list(args)
                    if self.mode == "undo":
                        return [("val", st, None)]
                    op = next((v[1] for v in vals or () if v is not None and v[0] == "c" and v[1] in ("Added", "Removed")), None)
                    if op is None:
                        self.need(None, "edit-recorded", f, n, self.what(STRAIL), "what is recorded here was not followed")
                        return [("val", ts_set(st, lost=True), None)]
                    if op == "Removed":
                        w = [v for v in vals if v is not None and v[0] == "s" and v[1][0] == "watch"]
                        self.need(None if not w else all(v[1][1] is False for v in w), "edit-recorded", f, n, self.what("the removed watch"),
                                  "what is recorded as removed is read after the removal has overwritten it, so another watch would be put back")
                    st = ts_set(st, **{"edits:" + STRAIL: True})
                    return [("val", self.cnt(st, "add" if op == "Added" else "rem", -1), None)]
                if name == "pop_back" and self.mode == "undo":
                    op = ts_get(st, "uop")
                    a, r = ts_get(st, "uadd", 0), ts_get(st, "urem", 0)
                    if op == "Removed":
                        self.need(a == 1 and r == 0 and bool(ts_get(st, "ugood")), "undo-puts-back", f, n, self.what("Removed"), "undoing a removal does not put exactly the recorded watch back")
                    elif op == "Added":
                        m = ts_get(st, "umatch")
                        self.need(a == 0 and r == (1 if m else 0), "undo-puts-back", f, n, self.what("Added"), "undoing an addition does not remove exactly the watch that was added")
                        if m:
                            self.undone.add("Added")
                    else:
                        self.need(None, "undo-puts-back", f, n, self.what("kind"), "which kind of edit is being undone was not followed")
                    if op:
                        self.undone.add(op if op == "Removed" else "Added?")
                    return [("val", ts_set(st, uop=None, uadd=None, urem=None, ugood=None, umatch=None), None)]
                if name in ("clear", "resize", "erase"):
                    if self.mode == "undo":
                        self.need(None, "undo-puts-back", f, n, self.what(STRAIL), "how far the trail is unwound was not followed")
                        return [("val", ts_set(st, **{"done:" + STRAIL: "?"}), None)]
                    self.need(False, "edit-recorded", f, n, self.what(STRAIL), "the record of edits is discarded while they still have to be undone")
                    return [("val", st, None)]
            if fld == CTRAIL and sub == "":
                if name in ("push_back", "emplace_back"):
                    vals = self.list_values(fr, cs[0], st) if len(cs) == 1 else list(args)
                    w = [v for v in vals or () if v is not None and v[0] == "s" and v[1][0] == "scratch"]
                    self.need(None if not w else all(v[1][1] is False for v in w), "edit-recorded", f, n, self.what("the old value"),
                              "what is recorded is not the value from before the change")
                    st = ts_set(st, **{"edits:" + CTRAIL: True})
                    return [("val", self.cnt(st, "scr", -1), None)]
                if name == "pop_back" and self.mode == "undo":
                    self.need(bool(ts_get(st, "uscr")), "undo-puts-back", f, n, self.what(SCRATCH), "undoing a change of a propagator's scratch value does not write the recorded value back")
                    self.undone.add("scratch")
                    return [("val", ts_set(st, uscr=None), None)]
                if name in ("clear", "resize", "erase"):
                    if self.mode == "undo":
                        self.need(None, "undo-puts-back", f, n, self.what(CTRAIL), "how far the trail is unwound was not followed")
                        return [("val", ts_set(st, **{"done:" + CTRAIL: "?"}), None)]
                    self.need(False, "edit-recorded", f, n, self.what(CTRAIL), "the record of edits is discarded while they still have to be undone")
                    return [("val", st, None)]
            if fld in (STORE, SCRATCH) and name in ("resize",):
                return [("val", st, None)]
            if fld == INBOX and sub == ".[]":
                if name in ("push_back", "emplace_back"):
                    self.need(True if ts_get(st, "ibx") != "empty" else bool(ts_get(st, "pend")), "undelivered-is-noted", f, n, self.what(PENDING),
                              "a first payload is put in a propagator's inbox without noting it for clearing, so it would leak into a later node")
                    return [("val", ts_set(st, dirty=True, ibx=None, pend=None), None)]
                if name == "clear":
                    return [("val", ts_set(st, ibxclear=True), None)]
            if fld == PENDING and sub == "":
                if name in ("push_back", "emplace_back"):
                    return [("val", ts_set(st, pend=True), None)]
                if name == "clear":
                    self.need(bool(ts_get(st, "drained")) or not ts_get(st, "dirty"), "undelivered-is-cleared", f, n, self.what(PENDING),
                              "the list of undelivered payloads is emptied without clearing the inboxes it names")
                    return [("val", ts_set(st, drained=None, dirty=None), None)]
        if k == "CXXOperatorCallExpr" and n.get("op") == "()" and cs:
            fld, sub = tail(self.place(fr, cs[0], st))
            if fld == FUNCS:
                for t in (STRAIL, CTRAIL, IDLE):
                    self.need(bool(ts_get(st, "reg:" + t)), "undo-registered-first", f, n, self.what("propagators run|" + t), "a propagator is run before anything is registered that would undo its changes to '%s'" % t)
                self.balanced(fr, n, st)
                st = ts_set(st, dirty=True)
                st = ts_set(st, **{"edits:" + STRAIL: True, "edits:" + CTRAIL: True})
                return [("val", st, None), ("throw", st, ("t", "gcs::innards::TrackedPropagationFailed"))]
        return None

    def on_write(self, fr, n, st, key, val):
        fld, sub = tail(key)
        if fld == STORE and sub == ".[].[]":
            if self.mode == "do":
                st = ts_set(self.edited(fr, n, st, STORE), moved=True)
        if fld == SCRATCH and sub == ".[].[]":
            if self.mode == "do":
                st = self.edited(fr, n, st, SCRATCH)
                st = ts_set(self.cnt(st, "scr", 1), wrote=True)
            else:
                ok = val is not None and val[0] == "s" and val[1][:2] == ("entry", CTRAIL) and val[1][2] != ""
                st = ts_set(st, uscr=True if ok else None)
        if fld == IDLE and sub == "":
            if self.mode == "undo":
                st = ts_set(st, uidle=val if val is not None else ("?",))
            elif not ts_get(st, "reg:" + IDLE):
                if self.search:
                    self.need(bool(ts_get(st, "root")), "undo-registered-first", fr["f"], n, self.what(IDLE),
                              "which propagators are disabled is changed away from the root before anything is registered that would undo it")
                st = ts_set(st, idlev=min(3, ts_get(st, "idlev", 0) + 1))
        return st

    def on_cond(self, fr, n, st):
        k = n["k"]
        if k == "CXXMemberCallExpr" and fname(n) == "empty" and isinstance(n.get("obj"), dict):
            p = self.place(fr, n["obj"], st)
            if p is not None and p == self.guesses:
                r = ts_get(st, "root")
                if r is not None:
                    return [(st, r is True)]
                return [(ts_set(st, root=True), True), (ts_set(st, root="no"), False)]
            fld, sub = tail(p)
            if fld == INBOX and sub == ".[]":
                return [(ts_set(st, ibx="empty"), True), (ts_set(st, ibx=None), False)]
        if self.mode == "undo" and n.get("op") in ("<", ">", "<=", ">=", "!=", "==") and len(n.get("c") or ()) == 2:
            res = []
            flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}
            for s, a in self.expr(fr, n["c"][0], st):
                for s2, b in self.expr(fr, n["c"][1], s):
                    op = n["op"]
                    if b is not None and b[0] == "s" and b[1][0] == "cur":
                        a, b, op = b, a, flip[op]
                    if a is not None and a[0] == "s" and a[1][0] == "cur" and b is not None and b[0] == "s" and b[1][0] == "snap":
                        more = op in (">", "!=", ">=")
                        exact = op in (">", "!=", "<=", "==") and a[1][1] == b[1][1] and b[1][2]
                        res.append((s2, more))
                        res.append((ts_set(s2, **{"done:" + a[1][1]: True if exact else "wrong"}), not more))
                        continue
                    e = next((x for x in (a, b) if x is not None and x[0] == "s" and x[1][0] == "entry"), None)
                    o = b if e is a else a
                    if e is not None and o is not None and o[0] == "c" and o[1] in ("Added", "Removed") and op in ("==", "!="):
                        cur = ts_get(s2, "uop")
                        for cand in ("Added", "Removed"):
                            if cur is None or cur == cand:
                                res.append((ts_set(s2, uop=cand), (cand == o[1]) == (op == "==")))
                        continue
                    if e is not None and op in ("==", "!="):
                        other = n["c"][0] if e is b else n["c"][1]
                        fld, sub = tail(self.place(fr, other, s2))
                        if fld == STORE:
                            res.append((ts_set(s2, umatch=True), op == "=="))
                            res.append((s2, op != "=="))
                            continue
                    return None
            return res or None
        return None

    def switch(self, fr, n, states):
        if self.mode == "undo":
            from c17 import segments
            c = n.get("cond")
            for s in states:
                for s2, v in self.expr(fr, c, s):
                    if v is not None and v[0] == "s" and v[1][:2] == ("entry", STRAIL):
                        outs = []
                        for cand in ("Added", "Removed"):
                            if ts_get(s2, "uop") in (None, cand):
                                d = "?undo-op"
                                outs += self.enter_switch(fr, n, ts_set(s2, uop=cand), cand)
                        return outs
        return super().switch(fr, n, states)

    def enter_switch(self, fr, n, st, cand):
        from c17 import segments
        segs = segments(n)
        start = None
        for i, (labels, _) in enumerate(segs):
            for l in labels:
                lv = self.const(l) if l is not None else None
                if lv is not None and lv[1] == cand:
                    start = i
        if start is None:
            start = next((i for i, (labels, _) in enumerate(segs) if None in labels), None)
        if start is None:
            return [("fall", st, None)]
        outs, live = [], [st]
        for _, ss in segs[start:]:
            nxt = []
            for o in self.seq(fr, ss, live):
                if o[0] == "fall":
                    nxt.append(o[1])
                elif o[0] == "break":
                    outs.append(("fall", o[1], None))
                else:
                    outs.append(o)
            live = nxt
            if not live:
                break
        return outs + [("fall", x, None) for x in live]

    def range_for(self, fr, n, states):
        outs, rest = [], []
        for s in states:
            fld, sub = tail(self.place(fr, n.get("range"), s)) if isinstance(n.get("range"), dict) else (None, "")
            if fld == PENDING and sub == "":
                ok, after = True, []
                for o in self.stmt(fr, n.get("body"), [ts_set(s, ibxclear=None)]):
                    if o[0] not in ("fall", "continue") or not ts_get(o[1], "ibxclear"):
                        ok = False
                    if o[0] in ("fall", "continue", "break"):
                        after.append(o[1])
                    else:
                        outs.append(o)
                for x in after:
                    outs.append(("fall", ts_set(x, ibxclear=None, drained=True if ok else None), None))
            else:
                rest.append(s)
        if rest:
            outs += super().range_for(fr, n, rest)
        return outs

    # -- registering the undo
    def register(self, fr, n, st, clo):
        rec = self.closure(clo)
        if rec is None or not rec.get("body"):
            self.need(None, "undo-registered-first", fr["f"], n, self.what("closure"), "what is registered to be undone was not followed")
            return ts_set(st, **{"reg:" + STRAIL: True, "reg:" + CTRAIL: True, "reg:" + IDLE: True})
        self.mode = "undo"
        ends = []
        try:
            s0 = St(st.env, tuple(x for x in st.ts if x[0].startswith(("idlev", "edits:"))), st.trace)
            for kind, s, v in self.run(rec, s0, clo[2]):
                if kind == "return":
                    ends.append(s)
                else:
                    self.need(False, "undo-puts-back", rec, rec.get("body"), self.what("throw"), "undoing can end in an exception half way")
        finally:
            self.mode = "do"
        new = {}
        for t in (STRAIL, CTRAIL):
            got = {ts_get(s, "done:" + t) for s in ends}
            if got == {None}:
                continue
            self.need(None if "?" in got else got == {True}, "undo-reaches-the-start", rec, rec.get("body"), self.what(t),
                      "undoing does not go back exactly to where '%s' stood when this node's propagation began" % t)
            new["reg:" + t] = True
        got = {ts_get(s, "uidle") for s in ends}
        if got != {None}:
            want = ("s", ("idle", ts_get(st, "idlev", 0)))
            self.need(None if ("?",) in got else got == {want}, "undo-reaches-the-start", rec, rec.get("body"), self.what(IDLE),
                      "what is restored is not which propagators were enabled when this node's propagation began")
            new["reg:" + IDLE] = True
        return ts_set(st, **new)

    def balanced(self, fr, n, st):
        if ts_get(st, "lost"):
            return
        for c, nm in (("add", "armed"), ("rem", "removed")):
            v = ts_get(st, c, 0)
            self.need(v == 0, "edit-recorded", fr["f"], n, self.what(nm), "a watch is %s without recording it (or recorded without being %s), so backtracking does not restore it" % (nm, nm))
        v = ts_get(st, "scr", 0)
        self.need(v == 0, "edit-recorded", fr["f"], n, self.what("scratch"), "a propagator's scratch value is changed without recording what it was")


def engine(prog, rep):
    prop = [f for f in prog.fns.values() if strip_targs(f.get("q") or "") == "gcs::innards::Propagators::propagate" and f.get("body")]
    sinks = [f for f in prog.fns.values() if f.get("cls") == IMP and f.get("overrides") and f.get("body") and not f.get("const")]
    rep.floor("propagation loops", len(prop), 1)
    rep.floor("watch-editing entry points", len(sinks), 3)
    edits = 0
    for f in sinks + prop:
        e = Watch(prog, rep, f, f in prop)
        try:
            for kind, s, v in e.run(f, St()):
                e.balanced(dict(f=f), f.get("body"), s)
                if kind == "return" and f in prop:
                    for t in (STRAIL, CTRAIL, IDLE):
                        e.need(bool(ts_get(s, "reg:" + t)), "undo-registered-first", f, f.get("body"), e.what("return|" + t), "propagation can end without anything registered that would undo its changes to '%s'" % t)
                    e.need(not ts_get(s, "dirty"), "undelivered-is-cleared", f, f.get("body"), e.what(PENDING), "propagation can end with undelivered payloads left behind, which would reach a propagator in a different node")
                    edits += 1
        except TooHard as t:
            rep.undecided("edit-recorded", f.loc, short_fn(f), str(t))
        if f in prop:
            for k in ("Removed", "Added", "scratch"):
                e.need(k in e.undone, "undo-puts-back", f, f.get("body"), e.what("covers " + k), "nothing registered for backtracking undoes edits of this kind")
            rep.floor("obligations in the propagation loop", sum(e.seen.values()), 20)


# ---------------------------------------------------------------- data propagators keep
def shares(prog, t, seen=None):
    """A pointer-like part of a type that a copy would share, or None."""
    seen = seen if seen is not None else set()
    t = plain(t)
    m = re.search(r"std::(shared_ptr|weak_ptr|reference_wrapper|span|basic_string_view)<|\*$|\*[,>]|&[,>]|std::function<|std::move_only_function<", t)
    if m:
        return t
    if t in seen:
        return None
    seen.add(t)
    for name in set(re.findall(r"(?:\(anonymous namespace\)|[A-Za-z_])[\w:()@./ ]*", t)):
        name = name.strip()
        c = prog.classes.get(name)
        if c is None:
            continue
        for x in c.get("fields") or ():
            r = shares(prog, c.type(x["t"]), seen)
            if r:
                return "%s::%s (%s)" % (name, x["n"], r)
        for b in c.get("bases") or ():
            bt = b.get("t") if isinstance(b, dict) else b
            if bt is not None:
                r = shares(prog, c.type(bt) if isinstance(bt, int) else str(bt), seen)
                if r:
                    return r
    return None


def constraint_data(prog, rep):
    n = 0
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if f.get("pattern"):
                continue
            for x in walk(f.get("body"), False):
                if x["k"] in CALLS and strip_targs(qcallee(x)) == STATE + "::add_constraint_state":
                    a = x["c"][0]
                    while isinstance(a, dict) and "std::any" in plain(f.type(a)) and len(list(kids(a))) == 1:
                        a = next(iter(kids(a)))
                    a = strip(a)
                    t = plain(f.type(a)) if isinstance(a, dict) and "t" in a else ""
                    if not t or t.startswith("std::any"):
                        rep.undecided("kept-data-is-copied", f.at(x), short_fn(f), "the type of the data kept was not found")
                        continue
                    n += 1
                    s = shares(prog, t)
                    rep.check(s is None, "kept-data-is-copied", f.at(x), "%s|%s" % (short_fn(f), t), "data kept to be restored on backtracking refers to something every level shares: %s" % s, "%s keeps %s" % (f.at(x), t))
    rep.floor("per-constraint backtrackable data", n, 12)


def run():
    rep = Report("C06", "other",
                 rule="Every search level opened is closed once, innermost first, on every return; a level starts as a copy and closing it returns every list of the search state to its recorded length, running the undo actions of each dropped level; every change the propagation engine makes to armed watches, propagators' scratch values and the enabled set is recorded or snapshotted, its undo is registered before the first such change and puts back what was recorded; backtrackable constraint data shares nothing between levels; nothing else a propagator may change survives a node",
                 explanation="Path-sensitive typestate over the search functions, symbolic list lengths over State::new_epoch and State::backtrack, a trail discipline over the propagation engine and the watch interface including the registered undo closures, and a type and capture analysis of what every installed propagator keeps.")
    rep.assumptions = ["levels are closed only with handles of levels still open (checked at every caller), so a list is never shorter than the handle says",
                       "an exception that leaves the search ends it"]
    prog = ir.Program(ir.lib_units())
    rep.part("search levels", epochs, prog, rep)
    rep.part("the search state", state_levels, prog, rep)
    rep.part("the propagation engine", engine, prog, rep)
    rep.part("constraint data", constraint_data, prog, rep)
    rep.part("what propagators keep", props.captured_state, prog, rep)
    return rep.finish(prog)


if __name__ == "__main__":
    main(run)
