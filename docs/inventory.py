#!/usr/bin/env python3
"""Write sa/known.json: the functions the rules were written against.

A function that is not in this list is a helper that somebody extracted (or a
renamed function); the engine always looks through a call of one, whatever
calls the rule at hand keeps as they are."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
from sa.model import Program  # noqa

prog = Program()
names = sorted({f.fullname for f in prog.all_functions("hftools")})
with open(os.path.join(HERE, "..", "sa", "known.json"), "w") as fh:
    json.dump(names, fh, indent=0)
    fh.write("\n")
print(len(names))
