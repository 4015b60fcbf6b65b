"""Closed forms of the scalar, phase and interpolation helpers."""
from ..algebra import RF
from ..lib import loc
from ..valnum import (REAL, Mat, Opaque, Pieces, Raises, Unsupported, absval,
                      angle_of, canon, cis, equal, expo, fn, imag, logarithm,
                      real, rf, sqrt, variants)
from .c17 import guarded

RULE = (
    "Polynomial value numbering (no numeric evaluation) of hftools.math: the "
    "closed form of every helper, for every resolution of its tests, equals "
    "the documented one as an identity in its arguments: dB and its inverse, "
    "dB/mag/real-imaginary to complex, angle with branch and unit, group "
    "delay at midpoints, phase unwrapping, continuous phase root, linear "
    "inter- and extrapolation; interpolation returns only where both range "
    "comparisons exclude extrapolation.")
MIN = 14
M = "hftools.math:"
A = RF.atom
I = A("I")
PI = A("pi")
C = RF.const
REAL |= {"xdb", "ang", "mag", "brn", "re", "im", "phi", "f"}
L10 = lambda x: logarithm(x) / logarithm(C(10))  # noqa


def form(prog, rep, rule, fi, args, want, kw=None, pick=None, hooks=None,
         what=""):
    """every alternative of fi(*args) that returns a number equals want; a
    list of wants allows any of them"""
    wants = want if isinstance(want, list) else [want]

    def go():
        vals = variants(prog, fi, args, kw, hooks=hooks or {})
        n = 0
        for v, ev in vals:
            for g in ev.visited:
                rep.analysed(g)
            if pick:
                v = pick(v)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                v = rf(v)
            if not isinstance(v, RF):
                rep.unsure(rule, fi, loc(fi), "value %r" % (v,))
                continue
            n += 1
            ok = any(equal(v, w) for w in wants)
            if not ok and "?" in v.atoms():
                ok = None
            rep.ob(rule, fi.fullname + (" " + what if what else ""), ok,
                   loc(fi), "" if ok else "%s%s is %r, expected %r" % (
                       fi.name, what and " (%s)" % what, canon(v),
                       canon(wants[0])))
        if not n:
            rep.unsure(rule, fi, loc(fi), "no value")
    guarded(rep, rule, fi, go)


def check(prog, rep, tier):
    rep.parts(*[(f, (prog, rep)) for f in (
        scalars, angles, phases, delays, interpolation, chopping)])


def scalars(prog, rep):
    z, x, a, m = A("z"), A("xdb"), A("ang"), A("mag")
    f = prog.func
    form(prog, rep, "dB", f(M + "dB"), [z], C(20) * L10(absval(z)))
    form(prog, rep, "dBinv", f(M + "dBinv"), [x],
         expo(x / C(20) * logarithm(C(10))))
    rad = cis(PI * a / C(180))
    form(prog, rep, "dB-angle", f(M + "dB_angle_to_complex"), [x, a],
         expo(x / C(20) * logarithm(C(10))) * rad)
    form(prog, rep, "mag-angle", f(M + "mag_angle_to_complex"), [m, a],
         m * rad)
    form(prog, rep, "re-im", f(M + "re_im_to_complex"), [A("re"), A("im")],
         A("re") + I * A("im"))


def angles(prog, rep):
    """angle(z, deg, branch) = arg(z exp(-i b)) + b with b = branch + half a
    turn, which lies in [branch, branch + 1 turn)"""
    fi = prog.func(M + "angle")
    z, br = A("z"), A("brn")
    deg = C(180) / PI
    none = {}
    form(prog, rep, "angle", fi, [z], angle_of(z), what="radians")
    form(prog, rep, "angle", fi, [z, True], angle_of(z) * deg, what="degrees")
    b = br + PI
    form(prog, rep, "angle-branch", fi, [z, False, br],
         angle_of(z / cis(b)) + b, what="radians, branch")
    b = br + C(180)
    form(prog, rep, "angle-branch", fi, [z, True, br],
         angle_of(z / cis(b * PI / C(180))) * deg + b,
         what="degrees, branch")


def phases(prog, rep):
    fi = prog.func(M + "continous_phase_sqrt")
    q, phi = A("q"), A("phi")
    form(prog, rep, "phase-sqrt", fi, [q], sqrt(absval(q)) * cis(
        phi / C(2)), hooks={
            "unwrap_phase": lambda ev, a, k: phi if len(a) == 1 and
            not k.get("deg", False) else Opaque("unwrap"),
            "_unwrap_phase": lambda ev, a, k: phi if len(a) == 1 and
            not k.get("deg", False) else Opaque("unwrap")})
    fu = prog.func(M + "unwrap_phase")
    d = A("d")
    first = angle_of(A("d[0]"))
    rest = fn("accumulate", angle_of(A("d[1:]") / A("d[:-1]"))) + first
    turns = {}
    for deg in (False, True):
        sc = C(180) / PI if deg else C(1)

        def go():
            vals = variants(prog, fu, [d], {"deg": deg})
            n = 0
            for v, ev in vals:
                for g in ev.visited:
                    rep.analysed(g)
                if not isinstance(v, Pieces) or set(v.items) != {"0", "1:"}:
                    rep.unsure("unwrap", fu, loc(fu), repr(v)[:120])
                    continue
                n += 1
                offs = None
                for turn in (0, 1, -1):
                    o = C(2 * turn) * PI
                    if equal(v.items["0"], (first + o) * sc):
                        offs = o
                        turns.setdefault(deg, set()).add(turn)
                bad = ""
                if offs is None:
                    bad = "the first sample becomes %r" % (
                        canon(v.items["0"]),)
                elif not equal(v.items["1:"], (rest + offs) * sc):
                    bad = "later samples become %r" % (
                        canon(v.items["1:"]),)
                rep.ob("unwrap", fu.fullname + (" deg" if deg else " rad"),
                       not bad, loc(fu), bad)
            if not n:
                rep.unsure("unwrap", fu, loc(fu), "no value")
        guarded(rep, "unwrap", fu, go)
    if len(turns) == 2:
        ok = turns[False] == turns[True]
        rep.ob("unwrap-turns", fu, ok, loc(fu), "" if ok else
               "whole turns added are %s in radians but %s in degrees" % (
                   sorted(turns[False]), sorted(turns[True])))


def delays(prog, rep):
    fi = prog.func(M + "delay")
    f, v = A("f"), A("v")
    f0, f1, v0, v1 = A("f[:-1]"), A("f[1:]"), A("v[:-1]"), A("v[1:]")

    def part(i):
        def g(t):
            return t[i] if isinstance(t, (tuple, list)) and len(t) == 2 \
                else Opaque("?")
        return g
    form(prog, rep, "delay", fi, [f, v], (f0 + f1) / C(2), pick=part(0),
         what="frequency")
    form(prog, rep, "delay", fi, [f, v],
         -angle_of(v1 / v0) / (C(2) * PI * (f1 - f0)), pick=part(1),
         what="delay")


def interpolation(prog, rep):
    fe = prog.func(M + "linear_extrapolate")
    x, y, xi = A("x"), A("y"), A("xi")
    idx = fn("searchsorted", A("x[1:-1]"), xi)

    def at(nm, i):
        return A("%s[%r]" % (nm, canon(i).key()))
    x0, x1 = at("x", idx), at("x", idx + C(1))
    y0, y1 = at("y", idx), at("y", idx + C(1))
    form(prog, rep, "linear", fe, [x, y, xi],
         y0 + (xi - x0) * (y1 - y0) / (x1 - x0))
    fi = prog.func(M + "interpolate")

    def go():
        vals = variants(prog, fi, [x, y, xi], hooks={
            "linear_extrapolate": lambda ev, a, k: RF.atom("LIN") if
            list(a) == [x, y, xi] or len(a) == 3 and all(
                isinstance(p, RF) and equal(p, q)
                for p, q in zip(a, (x, y, xi))) else Opaque("?")})
        n = 0
        for v, ev in vals:
            for g in ev.visited:
                rep.analysed(g)
            if not isinstance(v, RF):
                rep.unsure("interpolate", fi, loc(fi), repr(v))
                continue
            n += 1
            unk = any(c is None for c, _ in ev.conds)
            for nm, strict in (("min", "Lt"), ("max", "Gt")):
                ok = excluded(ev.conds, fn(nm, xi), fn(nm, x), strict)
                if not ok and unk:
                    ok = None
                rep.ob("interpolate-range", fi.fullname + " " + nm, ok,
                       loc(fi), "" if ok else
                       "returns a value without excluding xi.%s() %s x.%s()"
                       % (nm, "<" if nm == "min" else ">", nm))
            ok = equal(v, RF.atom("LIN"))
            rep.ob("interpolate", fi, ok or None, loc(fi))
        if not n:
            rep.unsure("interpolate", fi, loc(fi), "no value")
    guarded(rep, "interpolate-range", fi, go)


FLIP = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
NEG = {"Lt": "GtE", "Gt": "LtE", "LtE": "Gt", "GtE": "Lt"}


def excluded(conds, a, b, strict):
    """the conditions taken imply not (a strict b)"""
    for c, truth in conds:
        if c is None:
            continue
        op, p, q = c
        if op not in NEG or not (isinstance(p, RF) and isinstance(q, RF)):
            continue
        if equal(p, b) and equal(q, a):
            op, p, q = FLIP[op], q, p
        if not (equal(p, a) and equal(q, b)):
            continue
        if not truth:
            op = NEG[op]
        # the fact is  a op b
        if op in (NEG[strict], FLIP[strict]):
            return True
    return False


def chopping(prog, rep):
    """chop(x): zero where |x| < threshold, x elsewhere"""
    fi = prog.func(M + "chop")
    x, t = A("z"), A("mag")

    def go():
        n = 0
        for v, ev in variants(prog, fi, [x, t], hooks={
                "isinstance": lambda ev, a, k: False}):
            if isinstance(v, (int, float)):
                v = rf(v)
            if not isinstance(v, RF):
                rep.unsure("chop", fi, loc(fi), repr(v))
                continue
            c = [(k, tr) for k, tr in ev.conds if k is not None]
            if len(c) != 1 or len(ev.conds) != 1:
                rep.unsure("chop", fi, loc(fi), "conditions")
                continue
            (op, p, q), truth = c[0]
            p, q = rf(p), rf(q)
            if equal(q, absval(x)) and equal(p, t):
                op, p, q = FLIP.get(op, op), q, p
            if not (equal(p, absval(x)) and equal(q, t)) or op not in NEG:
                rep.ob("chop", fi, None, loc(fi), "unknown test")
                continue
            small = (op in ("Lt", "LtE")) == truth
            want = C(0) if small else x
            n += 1
            rep.ob("chop", fi.fullname + (" below" if small else " above"),
                   equal(v, want), loc(fi), "" if equal(v, want) else
                   "values %s the threshold become %r" % (
                       "below" if small else "above", canon(v)))
        if not n:
            rep.unsure("chop", fi, loc(fi), "no value")
    guarded(rep, "chop", fi, go)
