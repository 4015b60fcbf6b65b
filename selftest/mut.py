#!/usr/bin/env python3
"""Checker self-test: apply small source edits to a scratch copy of /repo and
run checks on it.  mutants.py lists (property, kind, file, old, new);
kind 'bad' must be reported, 'ok' must stay quiet.

    python3 selftest/mut.py [property ...]
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"


def load():
    import mutants
    return mutants.M


def one(m):
    pid, kind, fn, edits = m[0], m[1], m[2], m[3:]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.path.join(REPO, "hftools"),
                        os.path.join(d, "hftools"),
                        ignore=shutil.ignore_patterns("tests", "*.pyc"))
        p = os.path.join(d, "hftools", fn)
        s = open(p, encoding="latin-1", newline="").read()
        for a, b in zip(edits[::2], edits[1::2]):
            if "\r\n" in s:
                a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            if s.count(a) < 1:
                return m, "EDIT-FAILED", a
            s = s.replace(a, b, 1)
        open(p, "w", encoding="latin-1", newline="").write(s)
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVID=os.path.join(d, "ev"))
        r = subprocess.run([sys.executable, os.path.join(HERE, "..",
                                                         "check.py"), pid],
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        out = r.stdout.decode("utf8", "replace")
        want = 1 if kind == "bad" else 0
        lines = [l for l in out.split("\n") if l.startswith("  ")][:2]
        return m, "ok" if r.returncode == want else \
            "MISS rc=%d" % r.returncode, " || ".join(lines)[:200] if \
            r.returncode != 2 else out[-300:]
    finally:
        shutil.rmtree(d)


def main():
    want = sys.argv[1:]
    ms = [m for m in load() if not want or m[0] in want]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for m, st, info in ex.map(one, ms):
            if st != "ok":
                bad += 1
            print("%-8s %s %-3s %s | %s -> %s\n      %s" % (
                st, m[0], m[1], m[2], m[3][:50].replace("\n", "~"),
                m[4][:60].replace("\n", "~"), info))
    print("%d mutants, %d unexpected" % (len(ms), bad))


if __name__ == "__main__":
    main()
