"""Reporting shared by every check."""
import json
import os
import sys
import time
import traceback

import ir

VERIF = ir.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Report:
    def __init__(self, prop, level="other", rule="", explanation=""):
        self.prop, self.level, self.rule, self.explanation = prop, level, rule, explanation
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obligations = 0
        self.discharged = 0
        self.by_kind = {}
        self.samples = []
        self.violations = {}
        self.open = {}
        self.floors = []
        self.extra = {}
        self.assumptions = []

    def ok(self, kind, what=None):
        self.obligations += 1
        self.discharged += 1
        k = self.by_kind.setdefault(kind, [0, 0])
        k[0] += 1
        k[1] += 1
        if what and k[0] <= 2:
            self.samples.append("%s: %s" % (kind, what))

    def bad(self, kind, where, signature, message):
        """signature identifies the construct without line numbers."""
        self.obligations += 1
        k = self.by_kind.setdefault(kind, [0, 0])
        k[0] += 1
        sig = "%s|%s" % (kind, signature)
        self.violations.setdefault(sig, dict(rule=kind, where=where, signature=sig, message=message))

    def check(self, cond, kind, where, signature, message, what=None):
        if cond:
            self.ok(kind, what or "%s %s" % (where, signature))
        else:
            self.bad(kind, where, signature, message)
        return cond

    def undecided(self, kind, where, signature, message):
        """A construct the analysis cannot read: reported, never counted as holding."""
        self.obligations += 1
        k = self.by_kind.setdefault(kind, [0, 0])
        k[0] += 1
        self.open.setdefault("%s|%s" % (kind, signature), "%s: [%s] %s" % (where, kind, message))

    def part(self, name, fn, *args):
        """Runs one part of a check.  A part that cannot read the code it is given is reported as undecided."""
        self.parts = getattr(self, "parts", [0, 0])
        self.parts[0] += 1
        try:
            r = fn(*args)
            self.parts[1] += 1
            return r
        except SystemExit:
            raise
        except Exception as e:
            if os.environ.get("SA_TRACE"):
                traceback.print_exc(limit=-6)
            self.undecided("analysis", name, type(e).__name__, "this part of the analysis could not read the code: %s" % str(e)[:300])
            return None

    def floor(self, name, got, least):
        """Refuses a verdict when a rule has lost its instances."""
        self.extra.setdefault("instances", {})[name] = got
        self.floors.append((name, got, least))

    def known(self):
        res = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith("known: "):
                    parts = dict(x.split("=", 1) for x in line[7:].split(" ;; ") if "=" in x)
                    if parts.get("property") == self.prop:
                        res[parts["signature"]] = parts.get("what", "")
        return res

    def finish(self, prog=None):
        known = self.known()
        new = {s: v for s, v in self.violations.items() if s not in known}
        cov = dict(explanation=self.explanation, rule=self.rule, obligations=self.obligations, discharged=self.discharged,
                   by_rule={k: dict(obligations=v[0], discharged=v[1]) for k, v in sorted(self.by_kind.items())},
                   samples=self.samples[:40])
        if prog is not None:
            cov["translation_units"] = prog.tus
            cov["functions_loaded"] = len(prog.fns)
            cov["template_instances_loaded"] = len(prog.insts)
        if self.level == "proof":
            cov["checker_cmd"] = "python3 sa/%s" % os.path.basename(sys.argv[0])
            cov["trusted_base"] = ["clang 18 front end", "tool/export.cc", "sa/*.py"]
        cov.update(self.extra)
        cov["undecided"] = sorted(self.open.values())
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for s, what in sorted(known.items()):
            if s in self.violations:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if new:
            path = os.path.join(VERIF, "evidence", self.prop + ".violations.txt")
            with open(path, "w") as f:
                for s, v in sorted(new.items()):
                    f.write("%s\n  rule: %s\n  %s\n  signature: %s\n" % (v["where"], v["rule"], v["message"], s))
            for s, v in sorted(new.items()):
                print("%s: [%s] %s" % (v["where"], v["rule"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        for v in sorted(self.open.values()):
            print("UNDECIDED " + v)
        if getattr(self, "parts", None) and not self.parts[1]:
            print("ANALYSIS-BROKEN property=%s: no part of the analysis could read the code" % self.prop)
            return 2
        for name, got, least in self.floors:
            if got < (max(1, least // 3) if self.open else least):
                print("ANALYSIS-BROKEN property=%s: only %d instance(s) of '%s' found, at least %d expected" % (self.prop, got, name, least))
                return 2
        print("OK property=%s obligations=%d discharged=%d %s" % (self.prop, self.obligations, self.discharged,
              " ".join("%s=%d" % (k, v[0]) for k, v in sorted(self.by_kind.items()))))
        return 0


def main(fn):
    """Runs a checker; any internal failure is an error of the check, not a verdict."""
    try:
        sys.exit(fn())
    except ir.Broken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(limit=-6)
        sys.exit(2)
