"""Where propagators are installed, and what they keep between runs."""
import re

from ir import kids, walk
from cxx import strip, fname, qcallee, strip_targs, CALLS, root_of
from c17 import plain, split_args
from flow import params_of, writes_through
from c07 import short_fn

INSTALL = "gcs::innards::Propagators::install"
INIT = "gcs::innards::Propagators::install_initialiser"
ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=")


def lambda_of(f, n):
    """The lambda expression an argument is, directly or through a local variable."""
    n = strip(n)
    while isinstance(n, dict) and n["k"] in ("CXXConstructExpr", "Temp", "CXXBindTemporaryExpr") and len([x for x in kids(n)]) == 1:
        n = strip(next(iter(kids(n))))
    if not isinstance(n, dict):
        return None
    if n["k"] == "LambdaExpr":
        return n
    if n["k"] == "DeclRefExpr":
        for x in walk(f.get("body")):
            if x["k"] == "VarDecl" and x.get("d") == n["d"] and isinstance(x.get("init"), dict):
                return lambda_of(f, x["init"])
    return None


def installs(prog, names=(INSTALL,)):
    """(function, call, lambda or None) for every place a propagator or initialiser is installed."""
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if f.get("pattern"):
                continue
            for x in walk(f.get("body"), False):
                if x["k"] in CALLS and strip_targs(qcallee(x)) in names:
                    arg = 1 if strip_targs(qcallee(x)) == INSTALL else 0
                    cs = [c for c in x.get("c") or ()]
                    yield f, x, lambda_of(f, cs[arg]) if len(cs) > arg else None


def bodies(prog, key):
    """A lambda's or function template's bodies: the instances if there are any."""
    r = prog.fns.get(key)
    inst = [prog.insts[k] for k in prog.insts if k.startswith(key + "#<") or k.startswith(key + "!<")]
    if inst:
        return inst
    return [r] if r is not None else []


class Index:
    """Instances of generic lambdas by their key, built once."""

    def __init__(self, prog):
        self.prog = prog
        self.by = {}
        for k in prog.insts:
            m = re.match(r"(.*?)[#!]<", k)
            if m:
                self.by.setdefault(m.group(1), []).append(prog.insts[k])

    def bodies(self, key):
        r = self.by.get(key)
        if r:
            return r
        i = key.find("!<")
        if i > 0:
            r = [b for b in self.by.get(key[:i], ()) if "#<" in b.key and b.key.endswith(key[i:])]
            if r:
                return r
        r = self.prog.fn(key)
        return [r] if r is not None and r.get("body") else []


# ---------------------------------------------------------------- types
SEQ = ("std::vector", "std::optional", "std::array", "std::set", "std::deque", "std::pair", "std::tuple", "std::variant", "std::unique_ptr", "std::list", "std::unordered_set", "gch::small_vector")
MAPS = ("std::map", "std::unordered_map", "std::multimap")
PROOF_LEAF = {"gcs::innards::ProofLineNumber", "gcs::innards::ProofLineLabel", "gcs::innards::ProofFlag", "gcs::innards::ProofOnlySimpleIntegerVariableID",
              "gcs::innards::HalfReifyOnConjunctionOf"}


def outer(t):
    t = plain(t)
    i = t.find("<")
    if i < 0:
        return t, []
    j = t.rfind(">")
    return t[:i].strip(), [plain(x) for x in split_args(t[i + 1:j])]


def proof_only(prog, t, seen=()):
    t = plain(t)
    if t in PROOF_LEAF:
        return True
    if t in seen:
        return True
    name, args = outer(t)
    args = [a for a in args if not a.startswith(("std::allocator<", "std::less<", "std::hash<", "std::equal_to<"))]
    if name in MAPS:
        return len(args) >= 2 and proof_only(prog, args[1], seen + (t,))
    if name in SEQ:
        return bool(args) and all(proof_only(prog, a, seen + (t,)) for a in args if not re.fullmatch(r"\d+U?L*", a))
    c = prog.classes.get(t)
    if c is not None and c.get("fields"):
        return all(proof_only(prog, c.type(x["t"]), seen + (t,)) for x in c["fields"])
    return False


def shared_targets(prog, t, out, seen):
    """Types reachable from a value of this type that its copies share and may change."""
    t = plain(t)
    if t in seen:
        return
    seen.add(t)
    name, args = outer(t)
    if name in ("std::shared_ptr", "std::reference_wrapper", "std::weak_ptr", "std::span"):
        if args and not args[0].startswith("const "):
            out.add(args[0])
        return
    if t.endswith("*"):
        x = t[:-1].strip()
        if not x.startswith("const ") and "ProofLogger" not in x:
            out.add(x)
        return
    for a in args:
        shared_targets(prog, a, out, seen)
    c = prog.classes.get(t)
    if c is not None:
        for x in c.get("fields") or ():
            shared_targets(prog, c.type(x["t"]), out, seen)


# ---------------------------------------------------------------- mutation of something captured
class Mutation:
    def __init__(self, prog, index):
        self.prog, self.index, self.memo = prog, index, {}

    def of(self, rec, d, depth=0):
        """A construct through which the object a variable denotes or points to may change, or None."""
        k = (rec.key, d)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = self.find(rec, rec.get("body"), d, depth)
        self.memo[k] = r
        return r

    def rooted(self, n, d):
        r, parts = root_of(n)
        return isinstance(r, dict) and r["k"] == "DeclRefExpr" and r.get("d") == d

    def find(self, rec, body, d, depth):
        if depth > 6:
            return None
        for x in walk(body):
            k, op = x["k"], x.get("op")
            t = None
            if k in ("BinaryOperator", "CXXOperatorCallExpr", "CompoundAssignOperator") and op in ASSIGN:
                t = x["c"][0]
            elif k in ("UnaryOperator", "CXXOperatorCallExpr") and op in ("++", "--"):
                t = x["c"][0]
            elif k == "CXXMemberCallExpr" and not x.get("const") and isinstance(x.get("obj"), dict):
                q = strip_targs(qcallee(x))
                if not q.startswith(("std::shared_ptr", "std::__shared_ptr")) and fname(x) not in ("begin", "end", "data", "get", "find", "at", "back", "front", "size", "empty", "contains", "value"):
                    t = x["obj"]
                elif fname(x) in ("back", "front", "at"):
                    t = None
            if isinstance(t, dict) and self.rooted(t, d):
                return rec.at(x)
            if k == "VarDecl" and isinstance(x.get("init"), dict) and "t" in x:
                ty = rec.type(x)
                if (ty.rstrip().endswith("&") and "const" not in ty or "shared_ptr" in ty or ty.rstrip().endswith("*")) and self.rooted(x["init"], d):
                    r = self.find(rec, body, x["d"], depth + 1)
                    if r:
                        return r
            if k == "CXXForRangeStmt" and isinstance(x.get("var"), dict) and isinstance(x.get("range"), dict):
                ty = rec.type(x["var"]) if "t" in x["var"] else ""
                if ty.rstrip().endswith("&") and not ty.startswith("const") and self.rooted(x["range"], d) and x["var"].get("d"):
                    r = self.find(rec, x.get("body"), x["var"]["d"], depth + 1)
                    if r:
                        return r
            if k == "LambdaExpr":
                for c in x.get("caps") or ():
                    if c.get("init") and isinstance(c.get("e"), dict) and self.rooted(c["e"], d) and c.get("d") and c["d"] != d:
                        r = self.find(rec, x.get("body"), c["d"], depth + 1)
                        if r:
                            return r
            if k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                args = [a for a in x.get("c") or ()]
                key = x.get("f")
                ps = params_of(key) if key else None
                if k == "CXXOperatorCallExpr":
                    if op in ("->", "*", "[]", "==", "!=", "<", ">", "<=", ">=", "<=>", "<<", "+", "-") or op in ASSIGN or op in ("++", "--"):
                        continue
                    if op == "()":
                        args = args[1:]
                for i, a in enumerate(args):
                    if not isinstance(a, dict) or not self.rooted(a, d):
                        continue
                    pt = ps[i] if ps is not None and i < len(ps) else None
                    if pt is not None and not writes_through(pt) and "shared_ptr" not in pt:
                        ty = plain(rec.type(strip(a))) if "t" in (strip(a) or {}) else ""
                        if "shared_ptr" not in ty:
                            continue
                    for b in self.index.bodies(key) if key else ():
                        if i < len(b["params"]):
                            r = self.of(b, b["params"][i]["d"], depth + 1)
                            if r:
                                return r
                            break
                    else:
                        if pt is None or writes_through(pt) and "&&" not in pt:
                            if k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "std::" not in strip_targs(qcallee(x))[:5]:
                                return "?" + rec.at(x)
        return None


# ---------------------------------------------------------------- what propagators keep between runs
# Reviewed: objects propagators share between their runs and change, whose contents do not decide
# what is inferred after a backtrack.  Matched inside the type's name.
KEPT = {
    "Bridge": "flags and lines of the proof, filled in once",
    "CumulativeInputs": "tables the initialiser fills in once, before search",
    "GacAllDifferentScratch": "scratch space, rebuilt by each run",
    "GacGlobalCardinalityScratch": "scratch space, rebuilt by each run",
    "SCCPersistentData": "flags and lines of the proof",
    "DefaultProductData": "lines of the proof",
    "signed_multiply::Data": "lines of the proof",
    "GuardedWindowEnergy": "lines of the proof",
    "ActivityFlag": "flags of the proof",
    "ExtensionalData": "the table built by an initialiser, before search",
    "ExtensionalResidues": "positions to look at first; each is checked against the state before it is used",
    "LinearStage": "scratch space, rebuilt by each run",
    "DifferenceRootGraph": "filled in by an initialiser, before search",
    "DifferencePropagatorMemory": "has a trail of its own, undone by a mark in the search state",
}
# Types too general to review by name: reviewed with the function that installs the propagator.
KEPT_IN = {
    ("bool", "gcs/constraints/difference/"): "whether this is the first run, which is at the root: a first run below it throws",
    ("std::vector<unsigned long", "gcs/constraints/linear/"): "an order of the terms: any permutation gives the same inferences, and its length is kept in the search state",
    ("std::vector<std::pair<unsigned long, unsigned long>", "gcs/constraints/nogoods/"): "which two literals of each nogood are looked at: checked before use",
}


def reviewed(t, owner):
    for k in KEPT:
        if k in t:
            return True
    return any(t.startswith(a) and b in owner for a, b in KEPT_IN)



def context(f):
    """A name for the function a propagator is installed from."""
    s = short_fn(f)
    return f.loc.split(":")[0] if s.startswith("lambda") else s


def captured_state(prog, rep):
    """What a propagator keeps from one run to the next lives in the search state, or does not matter."""
    index = Index(prog)
    mut = Mutation(prog, index)
    n = 0
    for f, x, l in installs(prog):
        n += 1
        if l is None:
            rep.undecided("kept-between-runs", f.at(x), short_fn(f), "the propagator installed here is not a lambda expression")
            continue
        for c in l.get("caps") or ():
            ty = f.type(c)
            init = c.get("e")
            targets = set()
            shared_targets(prog, ty, targets, set())
            targets = {t for t in targets if not proof_only(prog, t)}
            own = l.get("mutable") and c.get("by") == "copy" and not proof_only(prog, ty)
            byref = c.get("by") == "ref"
            if not targets and not own and not byref:
                rep.ok("kept-between-runs")
                continue
            if all(reviewed(t, f.loc) for t in targets) and (not own or reviewed(ty, f.loc)) and not byref:
                rep.ok("kept-between-runs", "%s %s: reviewed" % (short_fn(f), c.get("n")))
                continue
            where = None
            for body in lambda_bodies(prog, index, f, l):
                where = where or mut.of(body, c["d"])
            if where is None:
                rep.ok("kept-between-runs", "%s %s: never changed by a run" % (short_fn(f), c.get("n")))
                continue
            if where.startswith("?"):
                rep.undecided("kept-between-runs", where[1:], "%s|%s" % (context(f), c.get("n")), "whether '%s', kept from one run to the next, may change here" % c.get("n"))
                continue
            rep.bad("kept-between-runs", where, "%s|%s" % (context(f), c.get("n")),
                    "a propagator changes '%s', which it keeps from one run to the next outside the search state, so the change survives backtracking" % c.get("n"))
    rep.floor("propagators installed", n, 120)


def lambda_bodies(prog, index, f, l):
    """Records whose body is this lambda's."""
    key = l.get("key") or l.get("f")
    if key:
        b = index.bodies(key)
        if b:
            return b
    return [LambdaRecord(f, l)]


class LambdaRecord(dict):
    def __init__(self, f, l):
        dict.__init__(self, body=l.get("body"), params=l.get("params") or ())
        self.f, self.key = f, "%s lambda@%s" % (f.key, l.get("p"))

    def at(self, n):
        return self.f.at(n)

    def type(self, n):
        return self.f.type(n)
