"""Write sa/spec/functions.json from /repo's current tree (reviewed by hand:
run only after a reviewed change of the specified behaviour)."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from sa import refdiff, specs  # noqa
from sa.model import Program  # noqa

t = specs.everything(Program())
w = specs.wanted(t)
refdiff.dump(specs.SPEC, {k: t[k] for k in t if k in w})
print("%d of %d" % (len(w), len(t)))
