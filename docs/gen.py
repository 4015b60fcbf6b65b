"""Regenerate properties.jsonl and MANIFEST.json from docs/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import BASE, P  # noqa

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=p["mechanism"], where=f)
                                    for f in p["files"][:1]]))) + "\n")
man = dict(version=1, setup_cmd="python3 -c \"import ast, json, sys\"",
           checks=[], not_applicable=[],
           notes="All checks are static: check.py parses /repo/hftools and "
                 "never imports it.")
for p in P:
    if p["na"]:
        man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        continue
    man["checks"].append(dict(
        property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
        thorough_cmd="python3 check.py %s --thorough" % p["id"],
        technique="static analysis: " + p["technique"], level="other",
        level_note=BASE + p["note"]))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
