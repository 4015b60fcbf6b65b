#!/usr/bin/env python3
"""check.py <property> : decide one property from /repo's current source."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa import specs  # noqa
from sa.model import AnalysisBroken, Program  # noqa
from sa.report import Report  # noqa


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rule = importlib.import_module("sa.rules." + pid.lower())
    rep = Report(pid)
    try:
        prog = Program()
        if prog.errors:
            print("ANALYSIS-BROKEN: source does not parse: %s" % prog.errors)
            return 2
        rep.parts((rule.check, (prog, rep, tier)),
                  (specs.check, (prog, rep)))
        if len(rep.obs) < getattr(rule, "MIN", 1):
            rep.unsure("analysis", "coverage", "", "only %d obligations "
                       "found, expected >= %d" % (len(rep.obs), rule.MIN))
    except AnalysisBroken as exc:
        print("ANALYSIS-BROKEN: %s" % exc)
        return 2
    return rep.finish(rule.RULE, tier, seed, os.environ.get("VERIF_EVID"))


if __name__ == "__main__":
    sys.exit(main(sys.argv))
