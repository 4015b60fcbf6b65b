"""Write DESIGN.md from props.py, the rule texts, the evidence files of the
last runs, docs/caught.json (selftest/caught.py --all --json) and
known_findings.json."""
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
from props import P  # noqa
from sa import specs  # noqa


def wrap(t, ind="", first=None):
    return textwrap.fill(" ".join(t.split()), 78,
                         initial_indent=ind if first is None else first,
                         subsequent_indent=ind, break_long_words=False,
                         break_on_hyphens=False)


out = [open(os.path.join(HERE, "design_head.md")).read().rstrip("\n"), "",
       "## Properties", ""]
caught = json.load(open(os.path.join(HERE, "caught.json")))
for p in P:
    if p["na"]:
        continue
    out += ["### %s %s" % (p["id"], p["title"]), ""]
    ev = json.load(open(os.path.join(ROOT, "evidence", p["id"] + ".json")))
    c = ev["coverage"]
    m = importlib.import_module("sa.rules." + p["id"].lower())
    rule = " ".join((getattr(m, "RULE", None) or m.__doc__ or "").split())
    out += [wrap("Method: " + p["technique"] + "."), "",
            wrap("Rule: " + rule), ""]
    by = c["by_rule"]
    own = [(k, v["obligations"]) for k, v in by.items()
           if k not in ("as specified", "refuses as specified")]
    if own:
        out += [wrap("Obligations by dedicated rule: " + ", ".join(
            "%s %d" % x for x in own) + "."), ""]
    sp = [(k, by[k]["obligations"]) for k in
          ("as specified", "refuses as specified") if k in by]
    if sp:
        out += [wrap("Spec comparison: " + ", ".join(
            "%d functions/tables %s" % (n, k) for k, n in sp) +
            " (listed in sa/specs.py OWN[%r])." % p["id"]), ""]
    u = c.get("undecided") or []
    out += [wrap("On the current tree: %d obligations, %d discharged, %d "
                 "undecided%s." % (
                     c["obligations"], c["discharged"], len(u),
                     " (" + ", ".join(sorted({x["construct"] for x in u})) +
                     ")" if u else "")), "",
            wrap("Why tests cannot: " + p["why"] + " Bound: " + p["note"]),
            ""]
out += ["## Not applicable", ""]
for p in P:
    if p["na"]:
        out += [wrap("**%s %s.** %s" % (p["id"], p["title"], p["na"]),
                     "  ", "* ")]
out += ["", "## Planted bugs", "",
        wrap("`seeded/` (source: selftest/seeds.py, confirmed by "
             "selftest/seed.py: applies, builds, stable tests pass, demo "
             "fails with and passes without). *own* is the check of the "
             "property the bug was written for; *all* every check that "
             "reports it."), "",
        "| bug | property | own check | all checks reporting |",
        "|---|---|---|---|"]
for b in caught:
    out.append("| %s | %s | %s | %s |" % (
        b[0], b[1], "reports" if b[1] in b[2] else "**misses**",
        " ".join(b[2]) or "-"))
k = sum(b[1] in b[2] for b in caught)
out += ["", wrap("%d of %d reported by their own check." % (k, len(caught))),
        "", "Why the missed ones are missed:", ""]
WHY = json.load(open(os.path.join(HERE, "missed.json")))
for b in caught:
    if b[1] not in b[2]:
        out.append(wrap("%s: %s" % (b[0], WHY.get(b[0], "?")), "  ", "* "))
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
out += ["", "## Known findings (genuine, not repaired)", ""]
for f in kf["known"]:
    out.append(wrap("%s `%s`: %s" % (f["property"], f["key"], f["what"]),
                    "  ", "* "))
out += ["", "## Repaired defects (`fix:` commits in /repo)", ""]
for f in kf["fixed"]:
    out.append(wrap(f.replace("fixed: property=", ""), "  ", "* "))
out += ["", open(os.path.join(HERE, "design_tail.md")).read().rstrip("\n")]
with open(os.path.join(ROOT, "DESIGN.md"), "w") as fh:
    fh.write("\n".join(out) + "\n")
