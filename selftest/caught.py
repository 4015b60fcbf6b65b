"""Which checks report which planted bug (in scratch copies)."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = "--all" in sys.argv
want = [a for a in sys.argv[1:] if not a.startswith("-")]
checks = [c["property"] for c in
          json.load(open(ROOT + "/MANIFEST.json"))["checks"]]


def one(sid):
    d = "/tmp/ct/" + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + d,
                              shell=True)
        subprocess.check_call(["git", "apply", "--unsafe-paths",
                               ROOT + "/seeded/%s/patch.diff" % sid], cwd=d)
        meta = json.load(open(ROOT + "/seeded/%s/meta.json" % sid))
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVID=d + "/ev")
        hits = []
        for c in (checks if ALL else [meta["property"]]):
            r = subprocess.run(["python3", ROOT + "/check.py", c], env=env,
                               capture_output=True, text=True)
            if r.returncode == 1:
                hits.append(c)
            elif r.returncode:
                hits.append(c + "!")
        return sid, meta["property"], hits
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = sorted(os.listdir(ROOT + "/seeded"))
ids = [i for i in ids if not want or i in want or
       any(i.startswith(w) for w in want)]
n = 0
rows = []
with ThreadPoolExecutor(8) as ex:
    for sid, p, hits in ex.map(one, ids):
        ok = p in hits
        n += ok
        rows.append([sid, p, hits])
        print("%-8s %s %s %s" % ("caught" if ok else "MISSED", sid, p, hits))
print("%d of %d" % (n, len(ids)))
if "--json" in sys.argv:
    with open(ROOT + "/docs/caught.json", "w") as fh:
        fh.write("[\n" + ",\n".join(map(json.dumps, rows)) + "\n]\n")
