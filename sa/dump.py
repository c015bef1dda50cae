"""Development aid: prints the exported tree of the functions whose key matches a regular expression."""
import re, sys
import ir


def show(f, n, ind=0, label=""):
    if not isinstance(n, dict):
        return
    a = " ".join("%s=%r" % (k, v) for k, v in n.items() if k not in ("k", "c", "t", "p", "init", "var", "cond", "range", "obj", "callee", "e", "then", "else", "inc", "body", "handlers", "caps", "params", "v") or (k == "v" and not isinstance(v, dict)) )
    ts = " :: " + f.type(n)[:60] if "t" in n else ""
    print("%s%s%s @%s %s%s" % ("  " * ind, label + ": " if label else "", n.get("k"), n.get("p"), a[:230], ts))
    for k in ("init", "var", "cond", "range", "obj", "callee", "e"):
        show(f, n.get(k), ind + 1, k)
    for c in n.get("c") or ():
        if c is None:
            print("  " * (ind + 1) + "null")
        show(f, c, ind + 1)
    for k in ("then", "else", "inc", "v", "body"):
        show(f, n.get(k), ind + 1, k)
    for h in n.get("handlers") or ():
        show(f, h, ind + 1, "handler")
    for h in n.get("caps") or ():
        print("  " * (ind + 1) + "cap", {k: v for k, v in h.items() if k != "e"})
        show(f, h.get("e"), ind + 2)


if __name__ == "__main__":
    prog = ir.Program(ir.lib_units())
    for d in (prog.fns, prog.insts):
        for k, f in d.items():
            if re.search(sys.argv[1], k):
                if len(sys.argv) > 2 and sys.argv[2] == "-k":
                    print(k, f.loc)
                    continue
                print("==", k, f.loc, {a: b for a, b in f.d.items() if a in ("coro", "inst_of", "cls", "pattern", "lambda", "parent", "st", "const")})
                for i in f.get("inits") or ():
                    print(" init", i.get("n"), i.get("base"), i.get("implicit"))
                    show(f, i.get("e"), 2)
                show(f, f.get("body"))
