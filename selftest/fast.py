"""Specification comparison only (no rules) over many edited trees, fast.

    fast.py hand|refactor|seeds|mutants [-v] [names...]

hand and refactor keep the behaviour: nothing may be reported; for seeds and
mutants the number of trees with a report is printed.
"""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), HERE]
sys.setrecursionlimit(20000)


class Rep(object):
    def __init__(self):
        self.bads, self.unsures = [], []

    def analysed(self, fi):
        pass

    def holds(self, *a):
        pass

    def bad(self, rule, k, where, why):
        self.bads.append((k, why))

    def unsure(self, rule, k, where, why):
        self.unsures.append((k, why))


def judge(d):
    from sa import refdiff, specs
    from sa.model import Program
    prog = Program(os.path.join(d, "hftools"))
    spec = refdiff.load(specs.SPEC)
    cur = specs.Current(prog, spec)
    refdiff.EXISTING, refdiff.SPECIFIED = set(cur.fis), set(spec)
    refdiff.CLASSES = specs.classes(prog)
    rep = Rep()
    full, part = set(), set()
    for f, p in specs.OWN.values():
        full.update(specs.names(spec, f))
        part.update(specs.names(spec, p))
    for k in sorted(full):
        specs.one(cur, rep, k, "", spec[k], False)
    for k in sorted(part - full):
        w = specs.only_raises(spec[k])
        if w[0]:
            specs.one(cur, rep, k, "refuses", w, True)
    return rep


def tree(kind, x):
    import refactor
    d = refactor.scratch()
    if kind == "hand":
        import hand
        hand.apply(d, hand.E[x])
    elif kind == "refactor":
        refactor.apply(d, x)
    elif kind == "seeds":
        subprocess.check_call([
            "git", "apply", "--unsafe-paths", os.path.join(
                HERE, "..", "seeded", x, "patch.diff")], cwd=d)
    else:
        import mutants
        import wild
        m = (wild.W if kind == "wild" else mutants.M)[x]
        p = os.path.join(d, "hftools", m[2])
        s = open(p, encoding="latin-1", newline="").read()
        if kind == "wild":
            s = s.replace("\r\n", "\n")
        for a, b in zip(m[3::2], m[4::2]):
            if kind == "wild" and a not in s:
                print("no match: " + a)
            if "\r\n" in s:
                a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            s = s.replace(a, b, 1)
        open(p, "w", encoding="latin-1", newline="").write(s)
    return d


def one(a):
    kind, x = a
    d = tree(kind, x)
    try:
        r = judge(d)
    finally:
        shutil.rmtree(d)
    return x, r.bads, r.unsures


def main(argv):
    kind = argv[0]
    want = [a for a in argv[1:] if not a.startswith("-")]
    if kind == "hand":
        import hand
        ids = range(len(hand.E))
        label = lambda i: "%d %s" % (i, hand.E[i][0])
    elif kind == "refactor":
        import refactor
        ids = sorted(refactor.T)
        label = str
    elif kind == "seeds":
        ids = sorted(os.listdir(os.path.join(HERE, "..", "seeded")))
        label = str
    else:
        import mutants
        import wild
        mutants.M = wild.W if kind == "wild" else mutants.M
        ids = [i for i, m in enumerate(mutants.M)]
        label = lambda i: "%d %s %s %s | %s -> %s" % (
            (i,) + mutants.M[i][:3] + tuple(
                x[-50:].replace("\n", "~") for x in mutants.M[i][3:5]))
    if want:
        ids = [i for i in ids if any(str(i) == w or w in str(i) and
                                     not w.isdigit() for w in want)]
    n = 0
    with ProcessPoolExecutor(8) as ex:
        for x, bads, unsures in ex.map(one, [(kind, i) for i in ids]):
            n += bool(bads)
            good = kind in ("hand", "refactor") or kind == "mutants" and \
                mutants.M[x][1] != "bad"
            if bads and (good or "-v" in argv) or not bads and not good:
                print("%-6s %s  %s" % ("report" if bads else "quiet",
                                       label(x), [k for k, w in unsures]
                                       if "-u" in argv else ""))
                if "-v" in argv:
                    for k, w in bads:
                        print("       ", k, w[:400])
    print("%s: %d of %d reported" % (kind, n, len(ids)))


if __name__ == "__main__":
    main(sys.argv[1:])
