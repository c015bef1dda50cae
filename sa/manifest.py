"""Regenerates MANIFEST.json from the table of claimed properties."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

TRUST = "Trusts the clang 18 front end and the exporter in tool/export.cc; every translation unit of the library is analysed through its type-resolved syntax tree. "

CLAIMED = json.load(open(os.path.join(HERE, "claimed.json")))
NOT = json.load(open(os.path.join(HERE, "not_claimed.json")))


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p in CLAIMED:
            c = CLAIMED[p]
            cmd = "python3 sa/%s.py" % p.lower()
            checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd, evidence_file="evidence/%s.json" % p,
                               technique=c["technique"], level="other", level_note=TRUST + c["note"]))
        else:
            na.append(dict(property=p, reason=NOT[p]))
    m = dict(version=1, setup_cmd="python3 sa/setup.py", checks=checks, not_applicable=na,
             notes="Static analysis only: each check parses /repo's current sources with clang and decides rules on the resolved program. No hooks in /repo.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
