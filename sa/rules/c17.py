"""Network parameter algebra."""
from fractions import Fraction

from ..algebra import RF
from ..engine import alternatives, cval, is_const, show
from ..lib import fname, is_param, loc, run, short
from ..valnum import (NC, POSITIVE, REAL, Mat, Obj, Opaque, Raises,
                      Unsupported, absval, canon, conj, det, equal, imag,
                      inverse, mm, real, rf, sqrt, variants)
from ..model import AnalysisBroken, ClassInfo
from .c03 import sub as subt

RULE = (
    "Polynomial value numbering of the network functions (no numeric "
    "evaluation): the closed form of cascadeS is the S-matrix of two "
    "two-ports in cascade, cascading e with deembedleft(e, X) and "
    "deembedright(X, e) with e gives back X as rational identities; every "
    "P property is, up to a common factor, the matrix of the class's "
    "documented port quantities; convert is inv(t1 - a t2)(a s2 - s1) in "
    "noncommutative normal form, and the constructors apply it from the "
    "source's P to the target's own P with both reference impedances set "
    "before; element accessors, cascade and deembed address row/column and "
    "operands in order; noise parameters and correlation matrices are "
    "inverse closed forms.")
MIN = 20
MP = "hftools.networks.multiports:"
SP = "hftools.networks.spar_functions:"
NO = "hftools.networks.noise:"
A = RF.atom


def check(prog, rep, tier):
    for s in (POSITIVE, REAL):
        s |= {"Z0", "Rn", "G", "F", "T"}
    REAL.add("B")
    rep.parts(*[(f, (prog, rep)) for f in (
        cascade, deembed_l, deembed_r, deembed_both, pmatrices, conversion,
        constructor, inverses, accessors, methods, carry, linalg, linalg_dims,
        noise,
        passive, noise_convert, hermitian,
        reciprocal)])


def guarded(rep, rule, fi, f):
    """run one derivation; a construct outside the fragment is undecided"""
    rep.analysed(fi)
    try:
        return f()
    except (Unsupported, ZeroDivisionError, Raises) as exc:
        rep.unsure(rule, fi, loc(fi), "outside the fragment: %s" % exc)


def same(a, b):
    return isinstance(a, Mat) and isinstance(b, Mat) and \
        (a.n, a.m) == (b.n, b.m) and all(
            equal(x, y) for r, s in zip(a.rows, b.rows)
            for x, y in zip(r, s))


def first_diff(a, b):
    for i in range(b.n):
        for j in range(b.m):
            if not equal(a.rows[i][j], b.rows[i][j]):
                return "element (%d,%d) is %r, expected %r" % (
                    i + 1, j + 1, canon(a.rows[i][j]), canon(b.rows[i][j]))
    return ""


def spec_cascade(a, b):
    (a11, a12), (a21, a22) = a.rows
    (b11, b12), (b21, b22) = b.rows
    d = RF.const(1) - a22 * b11
    return Mat([[a11 + a12 * b11 * a21 / d, a12 * b12 / d],
                [a21 * b21 / d, b22 + b21 * a22 * b12 / d]])


def judge(rep, rule, fi, vals, want, f=lambda v: v):
    if not vals:
        rep.unsure(rule, fi, loc(fi), "no path returns")
    for v, ev in vals:
        for g in ev.visited:
            rep.analysed(g)
        v = f(v)
        if not isinstance(v, (Mat, RF)) or isinstance(want, Mat) != \
                isinstance(v, Mat):
            rep.unsure(rule, fi, loc(fi), "result %r" % (v,))
            continue
        if isinstance(v, Mat):
            ok = same(v, want)
            rep.ob(rule, fi, ok, loc(fi), "" if ok else
                   first_diff(v, want)[:300])
        else:
            ok = equal(v, want)
            rep.ob(rule, fi, ok, loc(fi), "" if ok else
                   ("is %r, expected %r" % (canon(v), canon(want)))[:300])


def cascade(prog, rep):
    fi = prog.func(SP + "cascadeS")
    a, b = Mat.named("a"), Mat.named("b")

    def go():
        judge(rep, "cascade", fi, variants(prog, fi, [a, b]),
              spec_cascade(a, b))
    guarded(rep, "cascade", fi, go)
    # more operands: left to right
    def net(x):
        return Mat([[A(x + "11"), RF.const(1)], [RF.const(2), A(x + "22")]])

    def fold(xs):
        out = xs[0]
        for x in xs[1:]:
            out = spec_cascade(out, x)
        return out

    def rest(nets):
        def hook(ev, args, kw):
            if kw or len(args) < 2 or not all(isinstance(x, Mat)
                                              for x in args):
                raise Unsupported("recursive call")
            return fold(args)
        judge(rep, "cascade-%d" % len(nets), fi,
              variants(prog, fi, nets, hooks={"cascadeS": hook}), fold(nets))
    for k in (3, 4):
        guarded(rep, "cascade-%d" % k, fi, lambda: rest(
            [net(x) for x in "wxyz"[:k]]))


def deembed_l(prog, rep):
    fi = prog.func(SP + "deembedleft")
    e, x = Mat.named("e"), Mat.named("x")

    def go():
        judge(rep, "deembed-left", fi, variants(prog, fi, [e, x]), x,
              lambda v: spec_cascade(e, v) if isinstance(v, Mat) else v)
    guarded(rep, "deembed-left", fi, go)


def deembed_r(prog, rep):
    fi = prog.func(SP + "deembedright")
    e, x = Mat.named("e"), Mat.named("x")

    def go():
        judge(rep, "deembed-right", fi, variants(prog, fi, [x, e]), x,
              lambda v: spec_cascade(v, e) if isinstance(v, Mat) else v)
    guarded(rep, "deembed-right", fi, go)


def deembed_both(prog, rep):
    fi = prog.func(SP + "deembed")
    log = []

    def mk(side):
        def hook(ev, args, kw):
            r = Mat.named("%s%d" % (side, len(log)))
            names = prog.func(SP + ("deembedleft" if side == "L" else
                                    "deembedright")).params
            args = list(args)
            args += [kw[k] for k in names[len(args):] if k in kw]
            log.append((side, args, r))
            return r
        return hook
    e1, s, e2 = Mat.named("p"), Mat.named("s"), Mat.named("q")

    def go():
        vals = variants(prog, fi, [e1, s, e2], hooks={
            "deembedleft": mk("L"), "deembedright": mk("R")})
        for v, _ in vals:
            ok = None
            if len(log) == 2 and isinstance(v, Mat):
                (s1, a1, r1), (s2, a2, r2) = log

                def is_(x, m):
                    return isinstance(x, Mat) and same(x, m)
                ok = is_(v, r2) and {s1, s2} == {"L", "R"}
                for sd, ar, _ in log:
                    inner = s if sd == s1 else r1
                    want = [e1, inner] if sd == "L" else [inner, e2]
                    ok = ok and len(ar) == 2 and all(
                        is_(x, y) for x, y in zip(ar, want))
            rep.ob("deembed", fi, ok, loc(fi), "" if ok is not False else
                   "not deembedright(deembedleft(e1, S), e2)")
    guarded(rep, "deembed", fi, go)


# -- P matrices --------------------------------------------------------------------

def quantities(n, z):
    """rows over (V1..Vn, I1..In)"""
    def row(d):
        return [d.get(i, RF.const(0)) for i in range(2 * n)]
    one = RF.const(1)
    r, half = sqrt(z), RF.const(Fraction(1, 2))
    q = {}
    for k in range(n):
        q["V%d" % (k + 1)] = row({k: one})
        q["I%d" % (k + 1)] = row({n + k: one})
        q["-I%d" % (k + 1)] = row({n + k: -one})
        q["a%d" % (k + 1)] = row({k: half / r, n + k: half * r})
        q["b%d" % (k + 1)] = row({k: half / r, n + k: -half * r})
    return q


PORTS = {"ZArray": None, "YArray": None, "SArray": None,
         "GArray": "I1 V2 V1 I2", "HArray": "V1 I2 I1 V2",
         "ABCDArray": "V1 I1 V2 -I2", "TArray": "b1 a1 a2 b2",
         "TpArray": "a1 b1 b2 a2"}


def ports(cls, n):
    if PORTS[cls]:
        return PORTS[cls].split()
    r = range(1, n + 1)
    l, m = {"ZArray": ("V", "I"), "YArray": ("I", "V"),
            "SArray": ("b", "a")}[cls]
    return ["%s%d" % (l, k) for k in r] + ["%s%d" % (m, k) for k in r]


def pmatrices(prog, rep):
    for cls in sorted(PORTS):
        ci = prog.cls(MP + cls)
        fi = ci.find("P")
        if fi is None or not hasattr(fi, "node"):
            rep.unsure("ports", cls)
            continue
        for n in ((2,) if PORTS[cls] else (1, 2, 3)):
            q = quantities(n, A("Z0"))
            want = Mat([q[p] for p in ports(cls, n)])

            def go():
                vals = variants(prog, fi, [Obj(ci, shape=(n, n),
                                               Z0=A("Z0"))], n=n)
                if not vals:
                    rep.unsure("ports", fi)
                for v, ev in vals:
                    if not isinstance(v, Mat):
                        rep.unsure("ports", fi, loc(fi), repr(v))
                        continue
                    ok = proportional(v, want)
                    rep.ob("ports", "%s n=%d" % (fi.fullname, n), ok,
                           loc(fi), "" if ok else
                           "rows of P are not (%s): %s" % (
                               ", ".join(ports(cls, n)),
                               first_diff(v, want)[:200]))
            guarded(rep, "ports", fi, go)


def proportional(a, b):
    if (a.n, a.m) != (b.n, b.m):
        return False
    c = None
    for r, s in zip(a.rows, b.rows):
        for x, y in zip(r, s):
            if not equal(y, RF.const(0)):
                c = x / y
                break
        if c is not None:
            break
    if c is None or equal(c, RF.const(0)):
        return False
    return same(a, b.map(lambda y: y * c))


# -- conversion ------------------------------------------------------------------------

def conversion(prog, rep):
    fi = prog.func(MP + "convert")
    n = 2
    PA, PB, a = NC.named("PA", 2 * n), NC.named("PB", 2 * n), \
        NC.named("a", n)
    hooks = {"inv": lambda ev, args, kw: args[0].inv(),
             "matrix_multiply": lambda ev, args, kw: args[0].dot(args[1])}

    def go():
        vals = variants(prog, fi, [PA, PB, a], hooks=hooks)
        P = PA.dot(PB.inv())
        lo, hi = slice(None, n), slice(n, None)
        t1, s1 = P.block(lo, lo), P.block(lo, hi)
        t2, s2 = P.block(hi, lo), P.block(hi, hi)
        Ai = (t1 - a.dot(t2)).inv()
        want = Ai.dot(a.dot(s2) - s1)
        if not vals:
            rep.unsure("convert", fi)
        for v, ev in vals:
            if not (isinstance(v, tuple) and len(v) == 3 and
                    isinstance(v[0], NC)):
                rep.unsure("convert", fi, loc(fi), repr(v)[:100])
                continue
            ok = v[0] == want
            rep.ob("convert", fi, ok, loc(fi), "" if ok else
                   "result is not inv(t1 - a t2) (a s2 - s1)")
            ok = v[1] == Ai or v[1] == -Ai
            rep.ob("convert-transform", fi, ok, loc(fi), "" if ok else
                   "the second result is not inv(t1 - a t2)")
    guarded(rep, "convert", fi, go)


def attr_of(t, name):
    """owner of the attribute term name"""
    for x in alternatives(t):
        if x.op == "attr" and x.args[1] == name:
            return x.args[0]
        if x.op == "call" and short(x.args[0]) == name and x.args[1]:
            return x.args[1][0]
    return None


def root_param(t):
    while t is not None:
        if is_param(t):
            return t.args[0]
        if t.op == "call" and t.args[0].op in ("attr", "bound") and \
                short(t.args[0]) in ("view", "copy", "astype", "squeeze"):
            t = t.args[0].args[0]
        elif t.op == "call" and t.args[1]:
            t = t.args[1][0]
        elif t.op in ("attr", "sub", "bound"):
            t = t.args[0]
        elif t.op == "phi":
            ps = {root_param(x) for x in alternatives(t)}
            return ps.pop() if len(ps) == 1 else None
        else:
            return None
    return None


def constructor(prog, rep):
    ci = prog.cls(MP + "_MultiPortArray")
    fi = ci.methods.get("__init__")
    if fi is None:
        raise AnalysisBroken("no _MultiPortArray.__init__")
    eng, res = run(prog, fi, inline=lambda f: False, depth=1)
    rep.analysed(fi)
    calls = [e for e in eng.events if e.kind == "call" and
             short(e.obj) == "convert"]
    if not calls:
        rep.unsure("construct", fi, loc(fi))
        return
    data = fi.params[1]
    for e in calls:
        if len(e.args) < 3:
            rep.unsure("construct", fi, e.loc)
            continue
        src, dst = attr_of(e.args[0], "P"), attr_of(e.args[1], "P")
        a, b = root_param(src), root_param(dst)
        ok = a == data and b == "self"
        rep.ob("construct", fi, True if ok else (
            False if a == "self" and b == data else None), e.loc,
            "" if ok else "converts from %s to %s" % (a, b))
        c = root_param(e.args[2])
        rep.ob("construct-value", fi, True if c == data else (
            False if c == "self" else None), e.loc, "" if c != "self" else
            "the (not yet converted) result is converted instead of data")
        # Z0 is set before P is read
        zs = [x for x in eng.events if x.kind in ("store_attr", "set_prop")
              and x.name in ("Z0", "_Z0") and is_param(x.obj, "self")]
        late = [x for x in zs if x.seq > e.seq and compatible(x, e)]
        early = [x for x in zs if x.seq < e.seq]
        rep.ob("construct-z0", fi, False if late and not early else (
            True if early else None), e.loc, "the reference impedance is "
            "set after the conversion" if late and not early else "")
        for x in early:
            v = list(alternatives(x.val))
            ex = [(c, p) for c, p in x.guards if is_none(c, "Z0")]
            for c, p in ex:
                none = (c.args[0] == "Is") == p
                if none:
                    ok = any(is_data_z0(y, data) for y in v) and all(
                        is_data_z0(y, data) or is_const(y) for y in v)
                    rep.ob("construct-z0", fi.fullname + " inherit",
                           True if ok else (
                               False if all(is_const(y) for y in v)
                               else None), x.loc, "" if ok else
                           "an array without Z0 argument gets %s"
                           % show(x.val)[-40:])
                else:
                    ok = any(is_param(y, "Z0") for y in v)
                    rep.ob("construct-z0", fi.fullname + " explicit", ok,
                           x.loc, "" if ok else "Z0 becomes %s"
                           % show(x.val)[-40:])
    # what is stored is the first result
    st = [e for e in eng.events if e.kind == "store_sub" and
          root_param(e.obj) == "self"]
    for e in st:
        okv = [x for x in alternatives(e.val)]
        good = any(pick(x) == 0 for x in okv)
        bad = any(pick(x) in (1, 2) for x in okv)
        rep.ob("construct-store", fi, True if good else (
            False if bad else None), e.loc, "" if not bad else
            "stores an intermediate matrix of the conversion")
    if not st:
        rep.unsure("construct-store", fi, loc(fi))
    skip(prog, rep, fi, eng, calls, data)


def is_none(c, par):
    return c.op == "cmp" and c.args[0] in ("Is", "IsNot") and any(
        is_param(x, par) for x in c.args[1:]) and any(
        is_const(x) and cval(x) is None for x in c.args[1:])


def is_data_z0(y, data):
    if y.op == "attr" and y.args[1] in ("Z0", "_Z0"):
        return root_param(y.args[0]) == data
    return y.op == "call" and short(y.args[0]) == "getattr" and \
        root_param(y.args[1][0]) == data


def compatible(x, y):
    d = dict(y.guards)
    return all(d.get(c, p) == p for c, p in x.guards)


def pick(x):
    """position of the convert result a term selects"""
    if x.op in ("item", "unpack") and len(x.args) > 1 and isinstance(
            x.args[1], int):
        return x.args[1]
    if x.op == "sub" and is_const(x.args[1]) and isinstance(
            cval(x.args[1]), int) and x.args[0].op == "call" and \
            short(x.args[0].args[0]) == "convert":
        return cval(x.args[1])
    return None


def skip(prog, rep, fi, eng, calls, data):
    """data of the same class is passed on only when Z0 agrees"""
    for e in calls:
        for c, p in e.guards:
            parts = list(c.args) if c.op == "and" else [c]
            inst = [x for x in parts if x.op == "isinstance" and
                    "__class__" in show(x)]
            if not inst or p:
                continue
            z = [x for y in parts for x in subt(y)
                 if x.op == "attr" and x.args[1] in ("Z0", "_Z0")]
            rep.ob("construct-skip", fi, True if z else False, e.loc,
                   "" if z else "S-parameters with another reference "
                   "impedance are taken over unconverted")
            arg = any(is_param(x, "Z0") for y in parts for x in subt(y))
            if z:
                rep.ob("construct-skip", fi.fullname + " argument",
                       True if arg else False, e.loc, "" if arg else
                       "an explicit Z0 is ignored for data of the same "
                       "class")


def inverses(prog, rep):
    """Z from Y and Y from Z are matrix inverses"""
    for cls, other in (("ZArray", "YArray"), ("YArray", "ZArray")):
        ci = prog.cls(MP + cls)
        fi = ci.methods.get("__init__")
        if fi is None:
            rep.unsure("z-y", cls)
            continue
        eng, res = run(prog, fi, inline=lambda f: False, depth=1)
        rep.analysed(fi)
        st = [e for e in eng.events if e.kind == "store_sub" and
              root_param(e.obj) == "self"]
        for e in st:
            g = [c for c, p in e.guards if p and any(
                x.op == "isinstance" and other in show(x)
                for x in subt(c))]
            inv = [x for x in subt(e.val) if x.op == "call" and
                   short(x.args[0]) == "inv"]
            tr = [x for x in subt(e.val) if x.op == "call" and
                  short(x.args[0]) in ("transpose", "conj", "abs") or
                  x.op == "attr" and x.args[1] in ("t", "T")]
            rep.ob("z-y", fi, True if inv and g and not tr else (
                False if g and (not inv or tr) else None), e.loc,
                "" if inv and not tr else
                "%s from %s is not the inverse" % (cls, other))
        if not st:
            rep.unsure("z-y", fi, loc(fi))


def accessors(prog, rep):
    fi = prog.func(MP + "make_accessor")
    eng, res = run(prog, fi, depth=2)
    rep.analysed(fi)
    inner = [f for f in prog.all_functions() if f.parent is fi]
    for f in inner:
        import ast
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.slice, ast.Tuple) and len(n.slice.elts) == 3:
                ix = [getattr(x, "id", None) for x in n.slice.elts[1:]]
                ok = ix == list(fi.params[:2])
                rep.ob("accessor", fi, ok if None not in ix else None,
                       loc(fi), "" if ok else "addresses [%s]"
                       % ", ".join(map(str, ix)))
    if not inner:
        rep.unsure("accessor", fi, loc(fi))
    ini = prog.cls(MP + "_MultiPortArray").methods.get("__init__")
    eng, res = run(prog, ini, inline=lambda f: False, depth=1)
    for e in eng.events:
        if e.kind == "call" and short(e.obj) == "make_accessor" and len(
                e.args) == 2:
            i, j = e.args
            # the label stored together with it
            for s in eng.events:
                if s.kind == "store_sub" and s.val is not None and any(
                        x.op == "call" and x.args[1] == e.args and
                        short(x.args[0]) == "make_accessor"
                        for x in subt(s.val)):
                    lab = s.key
                    ks = label_parts(lab)
                    if ks is None:
                        rep.unsure("label", ini, s.loc)
                        continue
                    a, b = ks[-2:]

                    def off(t):
                        if t.op == "bin" and t.args[0] == "Add" and is_const(
                                t.args[2]):
                            return t.args[1], cval(t.args[2])
                        if t.op == "bin" and t.args[0] == "Add" and is_const(
                                t.args[1]):
                            return t.args[2], cval(t.args[1])
                        return t, 0
                    (a0, ao), (b0, bo) = off(a), off(b)
                    (i0, io), (j0, jo) = off(i), off(j)
                    ok = a0 is i0 and b0 is j0 and ao - io == 1 and \
                        bo - jo == 1
                    sw = a0 is j0 and b0 is i0 and i0 is not j0
                    wrong = a0 is i0 and b0 is j0 and not ok
                    rep.ob("label", ini, True if ok else (
                        False if sw or wrong else None), s.loc, "" if ok
                        else "label numbers (%s, %s) address element (%s, "
                        "%s)" % tuple(show(x)[-20:] for x in (a, b, i, j)))


def label_parts(t):
    if t is None:
        return None
    if t.op == "bin" and t.args[0] == "Mod" and t.args[2].op == "tuple":
        return list(t.args[2].args)
    if t.op == "call" and short(t.args[0]) == "format":
        return list(t.args[1])
    if t.op in ("fstr", "fstring", "joined"):
        xs = [x for x in t.args if not is_const(x)]
        return xs if len(xs) >= 2 else None
    return None


# -- methods --------------------------------------------------------------------------

def methods(prog, rep):
    ci = prog.cls(MP + "_MultiPortArray")
    fi = ci.methods.get("cascade")
    if fi is not None:
        eng, res = run(prog, fi, inline=lambda f: False, depth=1)
        rep.analysed(fi)
        for e in eng.events:
            if e.kind == "call" and short(e.obj) == "cascadeS":
                order(rep, "cascade-method", fi, e, ["self", fi.params[1]])
        klass(rep, fi, res)
    fi = ci.methods.get("deembed")
    if fi is not None:
        eng, res = run(prog, fi, inline=lambda f: False, depth=1)
        rep.analysed(fi)
        l, r = "left", "right"
        for e in eng.events:
            if e.kind != "call":
                continue
            nm = short(e.obj)
            want = {"deembedleft": [l, "self"], "deembedright": ["self", r],
                    "deembed": [l, "self", r]}.get(nm)
            if want:
                order(rep, "deembed-method", fi, e, want)
                for c, p in e.guards:
                    for s, a in ((l, "deembedleft"), (r, "deembedright")):
                        if is_none(c, s):
                            none = (c.args[0] == "Is") == p
                            if none and s in want:
                                rep.bad("deembed-method", fi, e.loc,
                                        "%s is applied although %s is None"
                                        % (nm, s))
        klass(rep, fi, res)


def order(rep, rule, fi, e, want):
    got = [root_param(a) for a in e.args]
    ok = got == want
    known = all(g is not None for g in got) and len(got) == len(want)
    rep.ob(rule, fi, True if ok else (False if known else None), e.loc,
           "" if ok else "%s(%s), expected (%s)" % (
               short(e.obj), ", ".join(map(str, got)), ", ".join(want)))
    # operands are S-parameters
    for a in e.args:
        conv = [x for x in subt(a) if x.op in ("call", "obj") and
                "SArray" in show(x)]
        rep.ob(rule, fi.fullname + " S", True if conv else (
            False if is_param(a) else None), e.loc, "" if conv else
            "%s is not converted to S-parameters" % show(a)[-30:])


def klass(rep, fi, res):
    for t in alternatives(res.term):
        if is_param(t, "self"):
            continue
        ok = t.op == "call" and "__class__" in show(t.args[0]) or \
            t.op == "call" and short(t.args[0]) == "type"
        bad = t.op in ("call", "obj") and (
            short(t.args[0]) in ("SArray", "cascadeS", "deembed",
                                 "deembedleft", "deembedright")
            if t.op == "call" else "SArray" in show(t))
        rep.ob("same-class", fi, True if ok else (False if bad else None),
               loc(fi), "" if not bad else "the result stays an SArray")


def carry(prog, rep):
    """Z0 goes along"""
    ci = prog.cls(MP + "_MultiPortArray")
    for nm in ("view", "copy", "__getitem__"):
        fi = ci.methods.get(nm)
        if fi is None:
            continue
        eng, res = run(prog, fi, inline=lambda f: False, depth=1)
        rep.analysed(fi)
        zs = [e for e in eng.events if e.kind in ("store_attr", "set_prop")
              and e.name in ("Z0", "_Z0")]
        kw = [e for e in eng.events if e.kind in ("call", "new") and
              dict(e.kw).get("Z0") is not None]
        good = [e for e in zs if any(x.op == "attr" and x.args[1] in (
            "Z0", "_Z0") and is_param(x.args[0], "self")
            for x in alternatives(e.val))] + [
                e for e in kw if any(x.op == "attr" and x.args[1] in (
                    "Z0", "_Z0") for x in alternatives(dict(e.kw)["Z0"]))]
        mk = [e for e in eng.events if e.kind == "call" and
              "__class__" in show(e.obj)]
        rep.ob("carry-z0", fi, True if good else (False if mk else None),
               loc(fi), "" if good else "the reference impedance is not "
               "carried over")
    fi = ci.methods.get("__array_finalize__")
    if fi is not None:
        eng, res = run(prog, fi, inline=lambda f: False, depth=1)
        rep.analysed(fi)
        zs = [e for e in eng.events if e.kind in ("store_attr", "set_prop")
              and e.name in ("Z0", "_Z0")]
        ok = [e for e in zs if any(is_param(x, fi.params[1])
                                   for x in subt(e.val))]
        rep.ob("carry-z0", fi, True if ok else False, loc(fi), "" if ok
               else "views do not inherit the reference impedance")
    fi = prog.cls(MP + "SArray").methods.get("__init__")
    if fi is not None:
        eng, res = run(prog, fi, inline=lambda f: False, depth=1)
        rep.analysed(fi)
        for e in eng.events:
            if e.kind == "call" and short(e.obj) == "__init__":
                z = dict(e.kw).get("Z0")
                vals = list(e.args) + ([z] if z is not None else [])
                ok = any(is_param(x, "Z0") for x in vals)
                rep.ob("pass-z0", fi, ok, e.loc, "" if ok else
                       "the Z0 argument is not used")


# -- linear algebra on the matrix axes ---------------------------------------------------

def linalg(prog, rep):
    fi = prog.func("hftools.math:matrix_multiply")
    a, b = Mat.named("a"), Mat.named("b")

    def go():
        judge(rep, "matrix-product", fi, variants(prog, fi, [a, b]),
              mm(a, b))
    guarded(rep, "matrix-product", fi, go)
    fi2 = prog.func("hftools.math:inv")
    guarded(rep, "matrix-inverse", fi2, lambda: judge(
        rep, "matrix-inverse", fi2, variants(prog, fi2, [a]), inverse(a)))
    fi3 = prog.func("hftools.math:det")
    guarded(rep, "determinant", fi3, lambda: judge(
        rep, "determinant", fi3, variants(prog, fi3, [a]), det(a)))
    fi4 = prog.func("hftools.math:solve_Ab")
    guarded(rep, "solve", fi4, lambda: judge(
        rep, "solve", fi4, variants(prog, fi4, [a, b]),
        mm(inverse(a), b)))
    fi5 = prog.func("hftools.math:make_matrix")
    xs = [A(x) for x in "pqrs"]
    guarded(rep, "make-matrix", fi5, lambda: judge(
        rep, "make-matrix", fi5, variants(prog, fi5, xs),
        Mat([xs[:2], xs[2:]])))
    fi6 = prog.func(SP + "switch_correct")
    guarded(rep, "switch", fi6, lambda: judge(
        rep, "switch", fi6, variants(prog, fi6, [b, a]),
        mm(b, inverse(a))))
    for nm, want in (("unit_smatrix", [[0, 1], [1, 0]]),
                     ("unit_matrix", [[1, 0], [0, 1]])):
        f7 = prog.func(MP + nm)
        w = Mat([[RF.const(x) for x in r] for r in want])
        guarded(rep, nm, f7, lambda: judge(
            rep, nm, f7, variants(prog, f7, []), w))


def linalg_dims(prog, rep):
    """the matrix functions act on the last two axes: inverse and product
    keep the dims, the determinant drops the matrix dims"""
    dims = ("f", "g", "i", "j")
    a, b = Mat.named("a"), Mat.named("b")
    for nm, args, want in (("inv", [a], dims), ("det", [a], dims[:2]),
                           ("matrix_multiply", [a, b], dims)):
        fi = prog.func("hftools.math:" + nm)
        got = []

        def cap(ev, args, kw):
            d = kw.get("dims", args[1] if len(args) > 1 else None)
            got.append(tuple(d) if isinstance(d, (tuple, list)) else None)
            return args[0]

        def go():
            variants(prog, fi, args, hooks={
                "dims": lambda ev, a, k: dims, "hfarray": cap,
                "_hfarray": cap})
            for d in got:
                rep.ob("linalg-dims", fi, None if d is None else d == want,
                       loc(fi), "" if d == want else
                       "dims of the result are %r for an array with dims %r"
                       % (d, dims))
        guarded(rep, "linalg-dims", fi, go)


# -- noise ---------------------------------------------------------------------------------

def isinst(names):
    def hook(ev, args, kw):
        c = args[1]
        cs = c if isinstance(c, tuple) else (c,)
        return any(getattr(x, "name", "") in names for x in cs)
    return hook


def noise(prog, rep):
    y = A("G") + A("I") * A("B")
    z = RF.const(50)
    gopt = (RF.const(1) / z - y) / (RF.const(1) / z + y)
    src = Obj(None, S=Mat.named("S"), Rn=A("Rn"), Fmin=A("F"), Gopt=gopt)
    ff = prog.func(NO + "from_noisepar")
    rep.analysed(ff)
    got = {}

    def new(ev, cls, args, kw):
        if cls.name == "NoisyTwoport":
            got["C"] = args[1]
            return Obj(cls, N=args[0], C=args[1])
        return NotImplemented if args else Obj(cls)

    def fwd():
        vals = variants(prog, ff, [src], hooks={"new": new})
        C = got.get("C")
        f1 = RF.const(Fraction(1, 2)) * (A("F") - RF.const(1))
        kt = RF.const(4 * 290) * A("k")
        want = Mat([[A("Rn"), f1 - A("Rn") * conj(y)],
                    [f1 - A("Rn") * y, A("Rn") * y * conj(y)]]).map(
            lambda v: v * kt)
        if not isinstance(C, Mat):
            rep.unsure("noise-matrix", ff, loc(ff))
            return
        ok = same(C, want)
        rep.ob("noise-matrix", ff, ok, loc(ff), "" if ok else
               first_diff(C, want)[:300])
    guarded(rep, "noise-matrix", ff, fwd)
    ci = prog.cls(NO + "NoisyTwoport")
    fi = ci.methods.get("noise_parameters")
    if fi is None:
        raise AnalysisBroken("no noise_parameters")
    rep.analysed(fi)
    f1 = RF.const(Fraction(1, 2)) * (A("F") - RF.const(1))
    kt = RF.const(4 * 290) * A("k")
    CA = Mat([[A("Rn"), f1 - A("Rn") * conj(y)],
              [f1 - A("Rn") * y, A("Rn") * y * conj(y)]]).map(
        lambda v: v * kt)
    want = dict(Rn=A("Rn"), Fmin=A("F"), Yopt=y, Gopt=gopt)

    def back(C, N, names, rule, hooks=None):
        def go():
            h = {"new": lambda ev, cls, args, kw: Obj() if cls.name ==
                 "DataBlock" else NotImplemented,
                "isinstance": isinst(names)}
            h.update(hooks or {})
            vals = variants(prog, fi, [Obj(ci, N=N, C=C)], hooks=h)
            if not vals:
                rep.unsure(rule, fi, loc(fi), "no result")
            for v, ev in vals:
                if not isinstance(v, Obj):
                    rep.unsure(rule, fi, loc(fi), repr(v))
                    continue
                for k, w in want.items():
                    g = v.attrs.get(k)
                    if not isinstance(g, RF):
                        rep.unsure(rule, fi.fullname + " " + k, loc(fi))
                        continue
                    ok = equal(g, w)
                    rep.ob(rule, fi.fullname + " " + k, ok, loc(fi),
                           "" if ok else ("%s of the correlation matrix of "
                                          "(Rn, Fmin, Yopt) is %r" % (
                                              k, canon(g)))[:300])
        guarded(rep, rule, fi, go)
    back(CA, Mat.named("N"), ("ABCDArray",), "noise-abcd")
    # through the admittance representation: CY = T CA T^H with
    # T = [[-Y11, 1], [-Y21, 0]] (ABCD -> Y)
    for s in (REAL,):
        s |= {"g11", "g21", "h11", "h21"}
    y11 = A("g11") + A("I") * A("h11")
    y21 = A("g21") + A("I") * A("h21")
    T = Mat([[-y11, RF.const(1)], [-y21, RF.const(0)]])
    TH = Mat([[conj(T.rows[j][i]) for j in range(2)] for i in range(2)])
    CY = mm(mm(T, CA), TH)
    NY = Mat([[y11, A("n12")], [y21, A("n22")]])
    nt = Obj(None, N=NY, C=CY)
    back(CY, NY, ("YArray",), "noise-y",
         {"convert": lambda ev, args, kw: nt})
    # attribute call self.convert(YArray)


def passive(prog, rep):
    fi = prog.func(NO + "passive_noise")
    N = Mat.named("N")
    NH = Mat([[conj(N.rows[j][i]) for j in range(2)] for i in range(2)])
    eye = Mat([[RF.const(int(i == j)) for j in range(2)] for i in range(2)])
    k, T = A("k"), A("T")

    def sc(m, c):
        return m.map(lambda v: v * c)

    def add(m, n, s=1):
        return Mat([[x + y if s > 0 else x - y for x, y in zip(a, b)]
                    for a, b in zip(m.rows, n.rows)])
    want = {"YArray": sc(add(N, NH), RF.const(2) * k * T),
            "ZArray": sc(add(N, NH), RF.const(2) * k * T),
            "SArray": sc(add(eye, mm(N, NH), -1), k * T)}
    for cls, w in want.items():
        got = []

        def new(ev, c, args, kw):
            if c.name == "NoisyTwoport":
                got.append(args)
                return Obj(c, N=args[0], C=args[1])
            return NotImplemented

        def herm(ev, args, kw):
            m = args[0]
            return Mat([[conj(m.rows[j][i]) for j in range(m.n)]
                        for i in range(m.m)])

        def newc(ev, args, kw):
            return new(ev, prog.cls(NO + "NoisyTwoport"), args, kw)

        def go():
            got[:] = []
            variants(prog, fi, [N, T], hooks={
                "new": new, "isinstance": isinst((cls,)), "Hconj": herm,
                "NoisyTwoport": newc})
            if not got:
                rep.unsure("passive-noise", fi.fullname + " " + cls)
            for args in got:
                if not (len(args) == 2 and isinstance(args[1], Mat)):
                    rep.unsure("passive-noise", fi, loc(fi))
                    continue
                ok = same(args[1], w)
                rep.ob("passive-noise", fi.fullname + " " + cls, ok,
                       loc(fi), "" if ok else first_diff(args[1], w)[:300])
        guarded(rep, "passive-noise", fi, go)


def noise_convert(prog, rep):
    ci = prog.cls(NO + "NoisyTwoport")
    fi = ci.methods.get("convert")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=lambda f: False, depth=1)
    rep.analysed(fi)
    # C' = T C T^H with T the second result of convert(source P, target P, N)
    calls = [e for e in eng.events if e.kind == "call" and
             short(e.obj) == "convert" and len(e.args) >= 3]
    for e in calls:
        src = attr_of(e.args[0], "P")
        dst = attr_of(e.args[1], "P")
        own = src is not None and root_param(src) == "self" and \
            src.op == "attr"
        new = dst is not None and (dst.op == "call" and is_param(
            dst.args[0], fi.params[1]))
        rev = src is not None and src.op == "call" and is_param(
            src.args[0], fi.params[1])
        rep.ob("noise-transform", fi, True if own and new else (
            False if rev else None), e.loc, "" if not rev else
            "transforms from the target to the source")
    prods = [t for e in eng.events if e.kind == "call" and
             short(e.obj) == "matrix_multiply" for t in [e.res]
             if t is not None]
    outer = [p for p in prods if not any(p in subt(q) and p is not q
                                         for q in prods)]
    for p in outer:
        fac = factors(p)
        kinds = [kind(x) for x in fac]
        ok = kinds == ["T", "C", "TH"]
        bad = None not in kinds and not ok
        rep.ob("noise-transform", fi.fullname + " product", True if ok else (
            False if bad else None), loc(fi), "" if not bad else
            "correlation matrix is %s, expected T C T^H" % " ".join(kinds))


def factors(t):
    if t.op == "call" and short(t.args[0]) == "matrix_multiply" and len(
            t.args[1]) == 2:
        return factors(t.args[1][0]) + factors(t.args[1][1])
    return [t]


def kind(t):
    if t.op == "attr" and t.args[1] == "C":
        return "C"
    if t.op == "call" and short(t.args[0]) == "Hconj":
        k = kind(t.args[1][0])
        return k + "H" if k else None
    p = pick(t)
    if p == 1:
        return "T"
    if p is not None:
        return "R%d" % p
    return None


def hermitian(prog, rep):
    """Hconj swaps i and j and conjugates"""
    fi = prog.func(NO + "Hconj")
    a = Mat.named("A")
    want = Mat([[conj(a.rows[j][i]) for j in range(2)] for i in range(2)])
    guarded(rep, "hermitian", fi, lambda: judge(
        rep, "hermitian", fi, variants(prog, fi, [a]), want))


def reciprocal(prog, rep):
    """make_reciprocal: S12 and S21 become the same root of S12*S21, the
    other elements stay"""
    fi = prog.func(SP + "make_reciprocal")
    s = Mat.named("S")
    p = s.rows[0][1] * s.rows[1][0]

    def go():
        vals = variants(prog, fi, [s])
        if not vals:
            rep.unsure("reciprocal", fi, loc(fi), "no result")
        for v, ev in vals:
            if not isinstance(v, Mat) or v.n != 2:
                rep.unsure("reciprocal", fi, loc(fi), repr(v))
                continue
            r = v.rows
            bad = None
            if not equal(r[0][1], r[1][0]):
                bad = "S12 and S21 of the result differ"
            elif not equal(r[0][1] * r[0][1], p):
                bad = "S12 of the result is %r" % (canon(r[0][1]),)
            elif not (equal(r[0][0], s.rows[0][0]) and
                      equal(r[1][1], s.rows[1][1])):
                bad = "S11 or S22 changes"
            rep.ob("reciprocal", fi, bad is None, loc(fi), bad or "")
    guarded(rep, "reciprocal", fi, go)
