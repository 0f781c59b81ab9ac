"""Obligation bookkeeping, known findings, evidence files and exit status of a check."""
import json
import os
import sys
import time

from frontend import VERIF

KNOWN = os.path.join(VERIF, "known-findings.json")


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.bad = {}            # key -> detail
        self.undecided = {}      # key -> reason
        self.samples = []
        self.info = {}
        self.floors = []
        self.explanation = ""
        self.assumptions = []

    def explain(self, explanation, assumptions=()):
        self.explanation = explanation
        self.assumptions = list(assumptions)

    def holds(self, n=1):
        self.obligations += n
        self.discharged += n

    def violation(self, key, detail):
        self.obligations += 1
        self.bad.setdefault(key, detail)

    def undec(self, key, why):
        self.obligations += 1
        self.undecided.setdefault(key, str(why)[:300])

    def sample(self, **kw):
        if len(self.samples) < 12:
            self.samples.append(kw)

    def floor(self, what, got, want):
        """instances confirmed by hand: fewer means the check lost its anchor"""
        self.floors.append((what, got, want))

    def finish(self, level="other"):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN)) if k["property"] == self.prop and k.get("status") == "open"]
        new = {}
        for k, d in sorted(self.bad.items()):
            m = next((x for x in known if x["key"] == k), None)
            if m is not None:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, m["what"]))
            else:
                new[k] = d
        rc = 0
        for what, got, want in self.floors:
            if got < want:
                print("LOST ANCHOR: %s: %d analysed, at least %d expected" % (what, got, want))
                new.setdefault("anchor:" + what, "%d instances analysed, at least %d expected" % (got, want))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", self.prop + ".violations.txt")
        if new:
            with open(rp, "w") as f:
                for k, d in new.items():
                    f.write("%s\n%s\n\n" % (k, d))
            for k, d in list(new.items())[:40]:
                print("violated: %s\n    %s" % (k, str(d).replace("\n", "\n    ")))
            rc = 1
        elif os.path.exists(rp):
            os.remove(rp)
        cov = {"explanation": self.explanation or "the analysis could not be set up", "obligations": self.obligations, "discharged": self.discharged,
               "undecided": len(self.undecided), "undecided_items": dict(list(self.undecided.items())[:40]), "samples": self.samples,
               "floors": [{"what": w, "analysed": g, "expected_at_least": n} for w, g, n in self.floors]}
        cov.update(self.info)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print("%s: %d obligations, %d discharged, %d undecided, %d violations, %.1f s" % (self.prop, self.obligations, self.discharged, len(self.undecided), len(new), time.time() - self.t0))
        for k, w in list(self.undecided.items())[:10]:
            print("undecided: %s: %s" % (k, w))
        if rc:
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return rc
