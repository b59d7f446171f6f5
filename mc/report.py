"""Obligations, evidence, verdicts."""
import json, os, sys, time
from . import prog as PR

KNOWN = os.path.join(PR.VERIF, "known_findings.txt")


def fkey(k):
    return k.split(" [without")[0].replace(" ", "_")


class Check:
    def __init__(self, pid, rule, P):
        self.pid, self.rule, self.P = pid, rule, P
        self.t0 = time.time()
        self.obs = []          # (key, ok, loc, text)
        self.analysed = {}
        self.assumptions = []
        self.minimum = 1
        self.seen = set()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.suffix = ""

    def ob(self, ok, key, loc, text=""):
        """one obligation. key names the construct without line numbers"""
        key += self.suffix
        k = (key, bool(ok), loc)
        if k in self.seen:
            return bool(ok)
        self.seen.add(k)
        self.obs.append((key, bool(ok), loc or "", text))
        return bool(ok)

    def variant(self, suffix):
        """following obligations are about another build configuration"""
        self.suffix = suffix

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def need(self, n, what):
        """the rule must have found at least n instances"""
        got = len(self.obs)
        if got < n:
            raise PR.AnalysisError("%s: only %d obligations found (%s), expected at least %d" % (self.pid, got, what, n))

    def finish(self):
        tier = self.tier
        if tier not in ("quick", "thorough"):
            tier = "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        known = {}
        try:
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("KNOWN-FINDING: property=%s key=" % self.pid):
                    rest = l.split("key=", 1)[1]
                    key, _, what = rest.partition(" ")
                    known[key] = what
        except FileNotFoundError:
            pass
        bad = [o for o in self.obs if not o[1]]
        new = [o for o in bad if fkey(o[0]) not in known]
        old = [o for o in bad if fkey(o[0]) in known]
        for key in sorted({fkey(o[0]) for o in old}):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, key, known[key]))
        d = os.environ.get("MINIMC_EVIDENCE") or os.path.join(PR.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        dischargd = sum(1 for o in self.obs if o[1])
        ev = {
            "property": self.pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": len(self.obs), "discharged": dischargd,
                "known_findings": len(old),
                "translation_units": len(self.P.tus), "functions_parsed": len(self.P.fns),
                "analysed": self.analysed,
                "samples": [{"obligation": o[0], "at": o[2], "holds": o[1], "detail": o[3][:400]} for o in self.obs[:400]],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1)
        vf = os.path.join(d, self.pid + ".violation.txt")
        if os.path.exists(vf):
            os.unlink(vf)
        print("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)" %
              (self.pid, len(self.obs), dischargd, len(old), len(new), time.time() - self.t0))
        if new:
            with open(vf, "w") as fh:
                fh.write("rule: %s\n" % self.rule)
                for o in new:
                    fh.write("%s  [%s]\n    %s\n" % (o[2], o[0], o[3]))
                    print("  %s  [%s] %s" % (o[2], o[0], o[3][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, vf))
            return 1
        return 0
