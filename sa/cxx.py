"""Queries over the exported trees that several rules share."""
import functools
import re
from ir import kids, walk

VARIANT_IVID = "std::variant<gcs::SimpleIntegerVariableID, gcs::ViewOfIntegerVariableID, gcs::ConstantIntegerVariableID>"
CASTS = {"CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "BuiltinBitCastExpr"}
CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"}
FORWARDERS = ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref")


def short(t):
    return t.replace(VARIANT_IVID, "IVID") if t else t


def fname(n):
    """Unqualified callee name of a call node, or None."""
    if n.get("fnm"):
        return n["fnm"]
    f = n.get("f")
    if f:
        return f
    c = n.get("callee")
    if isinstance(c, dict):
        return c.get("n")
    return None


_OPER = re.compile(r"operator(\(\)|\[\]|->\*|->|<=>|[-+*/%^&|~!=<>,]+)")


@functools.lru_cache(maxsize=None)
def _scan(f, stop_at_args):
    out, depth, i = [], 0, 0
    while i < len(f):
        ch = f[i]
        if ch == "o":
            m = _OPER.match(f, i)
            if m and (i == 0 or not (f[i - 1].isalnum() or f[i - 1] == "_")):
                if depth == 0:
                    out.append(m.group(0))
                i = m.end()
                if f[i:i + 2] == " <":
                    i += 1
                continue
        if ch == "<":
            depth += 1
        elif ch == ">":
            if f[i - 1] != "-":
                depth -= 1
        elif ch == "(" and depth == 0 and stop_at_args:
            if f[i:i + 6] not in ("(ctor)", "(dtor)", "(anony"):
                break
            out.append(ch)
        elif depth == 0:
            out.append(ch)
        i += 1
    return "".join(out)


def qcallee(n):
    """Qualified callee name without arguments: 'std::move' etc."""
    return _scan(n.get("f") or "", True)


def strip_targs(s):
    return _scan(s, False)


def strip(n):
    """Looks through value-preserving wrappers."""
    while isinstance(n, dict):
        k = n["k"]
        c = n.get("c") or []
        if k == "Temp" and len(c) == 1:
            n = c[0]
        elif k in CASTS and len(c) == 1:
            n = c[0]
        elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len([x for x in c if x and x["k"] != "CXXDefaultArgExpr"]) == 1 and c[0]:
            n = c[0]
        elif k == "CallExpr" and qcallee(n) in FORWARDERS and len(c) == 1:
            n = c[0]
        elif k == "InitListExpr" and len(c) == 1:
            n = c[0]
        else:
            return n
    return n


def this_path(n):
    """'_a.b' for a member chain rooted at this, else None."""
    n = strip(n)
    parts = []
    while isinstance(n, dict) and n["k"] in ("MemberExpr", "CXXDependentScopeMemberExpr"):
        parts.append(n["n"])
        b = (n.get("c") or [None])[0]
        if b is None or b["k"] == "CXXThisExpr":
            return ".".join(reversed(parts))
        n = strip(b)
        if isinstance(n, dict) and n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("->", "*"):
            n = strip(n["c"][0])
    return None


def root_of(n):
    """The variable, this, or other expression an lvalue chain starts from, with the member path."""
    parts = []
    while True:
        n = strip(n)
        if not isinstance(n, dict):
            return None, parts
        k = n["k"]
        if k == "MemberExpr":
            parts.insert(0, n["n"])
            n = (n.get("c") or [None])[0]
        elif k == "CXXOperatorCallExpr" and n.get("op") in ("->", "*", "[]", "()") and n.get("c"):
            if n.get("op") in ("[]",):
                parts.insert(0, "[]")
            n = n["c"][0]
        elif k == "ArraySubscriptExpr":
            parts.insert(0, "[]")
            n = n["c"][0]
        elif k == "UnaryOperator" and n.get("op") in ("*", "&"):
            n = n["c"][0]
        else:
            return n, parts


def this_paths(n):
    """Every maximal member path of this mentioned in an expression."""
    res = []
    stack = [n]
    while stack:
        x = stack.pop()
        if not isinstance(x, dict):
            continue
        if x["k"] == "MemberExpr" and not x.get("fn"):
            p = this_path(x)
            if p:
                res.append(p)
                continue
        stack.extend(kids(x))
    return res


def refs(n):
    """Every local/global declaration id mentioned."""
    return [x["d"] for x in walk(n) if x["k"] == "DeclRefExpr" and not x.get("fn")]


def is_call(n):
    return isinstance(n, dict) and n["k"] in CALLS


def covers(prefix, path):
    return path == prefix or path.startswith(prefix + ".")


def statements(n):
    """The direct statements of a body."""
    if not isinstance(n, dict):
        return []
    if n["k"] == "CompoundStmt":
        return [x for x in n.get("c") or () if isinstance(x, dict)]
    return [n]
