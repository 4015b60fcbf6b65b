"""Create /verif/seeded/<id>/ from selftest/seeds.py, confirming each one.

python3 selftest/seed.py [ids...]   (skips ids that already exist)
Each candidate is tried in a scratch copy of /repo: stable tests must pass,
the demo must pass on the unchanged copy and fail on the changed one.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds  # noqa

DEMO = '''#!/bin/bash
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
export MPLCONFIGDIR=$(mktemp -d)
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
cp "$here/demo.py" "$scratch/demo.py"
cd "$scratch"
/opt/venv/bin/python -W ignore demo.py
rc=$?
cd /
rm -rf "$scratch" "$MPLCONFIGDIR"
exit $rc
'''
TEST = '''
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mpl OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
cd %(d)s
export PYTHONPATH=%(d)s
py="/opt/venv/bin/python -m pytest -p h5py -q -p no:cacheprovider --timeout=300 --randomly-seed=1 --randomly-dont-reorganize --continue-on-collection-errors --tb=short -o junit_family=xunit2"
$py -o python_files='test*.py' --junitxml=%(w)s/t.xml hftools > %(w)s/t.log 2>&1
$py --doctest-modules --junitxml=%(w)s/d.xml hftools/math.py hftools/utils.py hftools/dataset/arrayobj.py > %(w)s/d.log 2>&1
/usr/bin/python3 /opt/vp/results.py %(w)s/o.json junit:%(w)s/t.xml junit:%(w)s/d.xml > /dev/null 2>&1
'''


def edit(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, "hftools", f)
        s = open(p, "rb").read().decode("latin-1")
        crlf = "\r\n" in s
        o = old.encode("utf-8").decode("latin-1")
        n = new.encode("utf-8").decode("latin-1")
        if crlf:
            o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
        if s.count(o) != 1:
            return "%s: %d matches for %r" % (f, s.count(o), old[:60])
        open(p, "wb").write(s.replace(o, n).encode("latin-1"))


def make(s, force=False):
    sid = s["id"]
    out = os.path.join(ROOT, "seeded", sid)
    if os.path.exists(out) and not force:
        return sid, "exists"
    w = "/tmp/sd/" + sid
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    d = w + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", d])
    subprocess.check_call("find %s/hftools -name __pycache__ -type d -prune "
                          "-exec rm -rf {} +" % d, shell=True)
    try:
        dd = w + "/demo"
        os.makedirs(dd)
        open(dd + "/demo.sh", "w").write(DEMO)
        os.chmod(dd + "/demo.sh", 0o755)
        open(dd + "/demo.py", "w").write(s["demo"].lstrip("\n"))

        def demo():
            return subprocess.run(["bash", dd + "/demo.sh"], cwd=d,
                                  capture_output=True, text=True, timeout=300)
        r = demo()
        if r.returncode:
            return sid, "DEMO FAILS CLEAN: " + r.stderr[-900:]
        err = edit(d, s["edits"])
        if err:
            return sid, "EDIT: " + err
        diff = subprocess.run(["git", "-C", d, "diff"],
                              capture_output=True).stdout
        r = demo()
        if r.returncode == 0:
            return sid, "DEMO PASSES WITH PATCH"
        why = r.stderr.strip().splitlines()[-1:]
        subprocess.run(["bash", "-c", TEST % dict(d=d, w=w)])
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        try:
            passed = set(json.load(open(w + "/o.json"))["passed"])
        except IOError:
            return sid, "NO TEST RESULT"
        miss = sorted(set(base) - passed)
        if miss:
            return sid, "TESTS FAIL: %s" % miss[:4]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dd, out)
        open(out + "/patch.diff", "wb").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"],
                       what_it_breaks=s["what"]),
                  open(out + "/meta.json", "w"), indent=1)
        return sid, "kept (%s)" % why
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [s for s in seeds.S if not want or s["id"] in want or
            s["prop"] in want]
    with ThreadPoolExecutor(5) as ex:
        for sid, msg in ex.map(lambda s: make(s, "-f" in sys.argv), todo):
            if msg != "exists":
                print(sid, msg)


main()
