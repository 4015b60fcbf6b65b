"""Obligations, known findings, evidence."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obs = []          # obligations
        self.undecided = []
        self.functions = set()
        self.extra = {}
        self.assumptions = []
        self._seen = set()

    def analysed(self, *fis):
        for f in fis:
            self.functions.add(getattr(f, "fullname", str(f)))

    def ob(self, rule, construct, ok, loc="", detail=""):
        """One obligation.  ok: True holds, False violated, None undecided."""
        construct = getattr(construct, "fullname", construct)
        key = "%s|%s" % (rule, construct)
        if not ok and ok is not None:
            k2 = (key, detail)
            if k2 in self._seen:
                return ok
            self._seen.add(k2)
        self.obs.append({"rule": rule, "construct": construct, "loc": str(loc),
                         "status": {True: "holds", False: "violated",
                                    None: "undecided"}[ok],
                         "detail": str(detail)[:1500], "key": key})
        return ok

    def holds(self, rule, construct, loc="", detail=""):
        return self.ob(rule, construct, True, loc, detail)

    def bad(self, rule, construct, loc="", detail=""):
        return self.ob(rule, construct, False, loc, detail)

    def unsure(self, rule, construct, loc="", detail=""):
        return self.ob(rule, construct, None, loc, detail)

    def parts(self, *fns):
        """Run the parts of a rule; a part the analysis cannot handle is
        recorded as undecided (never as a violation, never as holding)."""
        import traceback
        from .engine import DEBUG
        from .model import AnalysisBroken
        for fn, args in fns:
            try:
                fn(*args)
            except Exception as exc:
                if DEBUG and not isinstance(exc, AnalysisBroken):
                    raise
                self.unsure("analysis", getattr(fn, "__name__", str(fn)), "",
                            traceback.format_exc()[-400:])

    def finish(self, rule_text, tier="quick", seed=1, out=None):
        out = out or os.path.join(VERIF, "evidence")
        os.makedirs(out, exist_ok=True)
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN))["known"]
                     if k["property"] == self.pid]
        kkeys = {k["key"]: k for k in known}
        bad = [o for o in self.obs if o["status"] == "violated"]
        new = [o for o in bad if o["key"] not in kkeys]
        old = [o for o in bad if o["key"] in kkeys]
        und = [o for o in self.obs if o["status"] == "undecided"]
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o["rule"], {"obligations": 0, "holds": 0,
                                             "violated": 0, "undecided": 0})
            r["obligations"] += 1
            r[o["status"]] += 1
        ev = {
            "property": self.pid, "tier": tier, "seed": seed,
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo/hftools' current "
                               "source. " + rule_text,
                "obligations": len(self.obs),
                "discharged": sum(o["status"] == "holds" for o in self.obs),
                "undecided": [dict(rule=o["rule"], construct=o["construct"],
                                   loc=o["loc"], detail=o["detail"])
                              for o in und],
                "by_rule": rules,
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:400],
                "samples": [dict(rule=o["rule"], construct=o["construct"],
                                 loc=o["loc"], status=o["status"],
                                 detail=o["detail"][:300])
                            for o in self.obs[:12]],
                "known_findings": [o["key"] for o in old],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        from .engine import FAULTS
        ev["coverage"]["statements_not_modelled"] = sorted(set(FAULTS))
        ev["coverage"].update(self.extra)
        with open(os.path.join(out, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for k in sorted(set(o["key"] for o in old)):
            print("KNOWN-FINDING: property=%s %s -- %s"
                  % (self.pid, k, kkeys[k]["what"]))
        print("%s: %d obligations over %d functions, %d hold, %d undecided, "
              "%d known, %d violated" % (
                  self.pid, len(self.obs), len(self.functions),
                  ev["coverage"]["discharged"], len(und), len(old), len(new)))
        for o in und:
            if o["rule"] == "analysis":
                print("UNDECIDED: %s %s" % (o["construct"], o["detail"]))
        if new:
            rp = os.path.join(out, self.pid + ".violations.json")
            with open(rp, "w") as fh:
                json.dump(new, fh, indent=1, default=str)
            for o in new:
                print("  %s: [%s] %s -- %s" % (o["loc"], o["rule"],
                                               o["construct"],
                                               o["detail"][:260]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0
