"""Plot projections, Smith chart geometry."""
import ast

from ..algebra import RF
from ..lib import loc
from ..model import AnalysisBroken, ClassInfo, Ext, FuncInfo, ModVar
from ..valnum import (REAL, Eval, Func, Lam, Obj, Opaque, Raises, Unsupported,
                      absval, angle_of, canon, clone, conj, equal, imag,
                      logarithm, real, rf, variants)
from .c17 import guarded

RULE = (
    "The projection table used by the plot methods is resolved from the "
    "source (the module variable subscripted with the projection name); each "
    "entry's closed form (polynomial value numbering) is compared with the "
    "documented transformation; plot hands the table's result on in order "
    "and prefers the projection argument over the axes' own name; every axes "
    "class with a documented projection name is registered; the circles of "
    "constant r, x, g, b satisfy |Gamma - centre| = radius identically.")
MIN = 12
H = "hftools.plotting.helper:"
S = "hftools.plotting.smith:"
A, C = RF.atom, RF.const
I, PI = A("I"), A("pi")
REAL |= {"r", "xx", "px"}
X, Y = A("px"), A("py")
UR, UD, DX, DY = A("unwrap-rad"), A("unwrap-deg"), A("dly-x"), A("dly-y")


def L10(x):
    return logarithm(x) / logarithm(C(10))


def specs():
    a = angle_of(Y)
    return {
        "db": (X, C(20) * L10(absval(Y))),
        "db10": (X, C(10) * L10(absval(Y))),
        "mag": (X, absval(Y)),
        "mag_square": (X, Y * conj(Y)),
        "rad": (X, a),
        "deg": (X, a * C(180) / PI),
        "unwraprad": (X, UR),
        "unwrapdeg": (X, UD),
        "real": (X, real(Y)),
        "imag": (X, imag(Y)),
        "groupdelay": (DX, DY),
        "cplxpolar": (a, absval(Y)),
        "x-si": (X, Y),
        None: (X, Y),
    }


def hooks():
    def unwrap(ev, a, k):
        deg = k.get("deg", a[1] if len(a) > 1 else False)
        if a and isinstance(a[0], RF) and equal(a[0], Y) and isinstance(
                deg, bool):
            return UD if deg else UR
        return Opaque("unwrap_phase")

    def dly(ev, a, k):
        a = list(a) + [k[n] for n in ("freq", "var") if n in k]
        if len(a) == 2 and all(isinstance(p, RF) for p in a):
            if equal(a[0], X) and equal(a[1], Y):
                return (DX, DY)
            return (A("dly-x'"), A("dly-y'"))
        return Opaque("delay")
    return {"unwrap_phase": unwrap, "_unwrap_phase": unwrap, "delay": dly,
            "remove_tail": lambda ev, a, k: a[0]}


def table_var(prog):
    """the module variable subscripted by the projection name in plot"""
    ci = prog.cls(H + "HFToolsAxes")
    fi = ci.methods.get("plot")
    if fi is None:
        raise AnalysisBroken("HFToolsAxes.plot not found")
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
            b = prog.lookup(fi.module, n.value.id)
            if isinstance(b, ModVar):
                return fi, b
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == "get" and isinstance(
                    n.func.value, ast.Name):
            b = prog.lookup(fi.module, n.func.value.id)
            if isinstance(b, ModVar):
                return fi, b
    return fi, None


def entries(prog, mv):
    """{key: value node} of the table: initial dict plus module level stores
    and updates, in order; None when it cannot be resolved"""
    out = {}

    def add(e):
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if not isinstance(k, ast.Constant):
                    return False
                out[k.value] = v
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == "dict":
            for k in e.keywords:
                if k.arg is None:
                    return False
                out[k.arg] = k.value
            return all(add(x) for x in e.args)
        return False
    for s in mv.module.tree.body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name) and t.id == mv.name:
                    out.clear()
                    if not add(s.value):
                        return None
                elif isinstance(t, ast.Subscript) and isinstance(
                        t.value, ast.Name) and t.value.id == mv.name:
                    if not isinstance(t.slice, ast.Constant):
                        return None
                    out[t.slice.value] = s.value
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Attribute) and isinstance(
                    s.value.func.value, ast.Name) and \
                s.value.func.value.id == mv.name:
            if s.value.func.attr != "update" or not add(ast.Call(
                    func=ast.Name(id="dict", ctx=ast.Load()),
                    args=s.value.args, keywords=s.value.keywords)):
                return None
        elif isinstance(s, (ast.For, ast.If, ast.With, ast.Try)):
            if touched(s, mv.name):
                return None
    return out


READS = {"items", "keys", "values", "get", "copy"}


def touched(s, name):
    """the statement may change the table: any use that is not a plain read
    (subscript load, membership, a reading method, iteration)"""
    up = {}
    for n in ast.walk(s):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    for n in ast.walk(s):
        if not (isinstance(n, ast.Name) and n.id == name):
            continue
        if not isinstance(n.ctx, ast.Load):
            return True
        p = up.get(n)
        if isinstance(p, ast.Subscript) and p.value is n and isinstance(
                p.ctx, ast.Load) or isinstance(p, ast.Compare) or \
                isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
            continue
        if isinstance(p, ast.Attribute) and p.attr in READS:
            continue
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and \
                p.func.id in ("len", "sorted", "list", "iter", "dict"):
            continue
        return True
    return False


def run_entry(prog, mod, node, args, limit=16):
    """all values of calling the table entry"""
    out, plan = [], []
    while True:
        ev = Eval(prog, hooks=hooks())
        ev.plan = list(plan)
        try:
            f = ev.expr(node, {}, mod)
            out.append((ev.call(f, list(args), {}), ev))
        except Raises:
            pass
        plan = ev.plan[:ev.nchoice]
        while plan and plan[-1] is False:
            plan.pop()
        if not plan or len(out) > limit:
            return out
        plan[-1] = False


def check(prog, rep, tier):
    fi, mv = table_var(prog)
    if mv is None:
        rep.unsure("projections", fi, loc(fi), "no projection table")
    else:
        rep.parts((table, (prog, rep, mv)))
    rep.parts((plot, (prog, rep, fi, mv)))
    rep.parts((registered, (prog, rep)))
    rep.parts((smith, (prog, rep)))


def table(prog, rep, mv):
    ent = entries(prog, mv)
    where = "%s (%s)" % (mv.module.rel, mv.name)
    if ent is None:
        rep.unsure("projections", mv.fullname, where, "table not constant")
        return
    for name, want in specs().items():
        con = "%s[%r]" % (mv.fullname, name)
        if name not in ent:
            rep.ob("projection-missing", con, False, where,
                   "projection %r has no transformation" % (name,))
            continue
        node = ent[name]
        at = "%s:%d" % (mv.module.rel, node.lineno)
        try:
            vals = run_entry(prog, mv.module, node, [X, Y])
        except (Unsupported, ZeroDivisionError) as exc:
            rep.unsure("projection", con, at, str(exc))
            continue
        wants = [want]
        if name == "cplxpolar":
            w = X + I * Y
            try:
                wants.append((angle_of(w), absval(w)))
            except Unsupported:
                pass
        for v, ev in vals:
            if not (isinstance(v, tuple) and len(v) == 2 and all(
                    isinstance(p, RF) for p in v)):
                rep.unsure("projection", con, at, repr(v)[:100])
                continue
            ok = any(equal(v[0], w[0]) and equal(v[1], w[1]) for w in wants)
            if not ok and name == "cplxpolar":
                # real y: Cartesian coordinates; equal up to a common factor
                ok = polar_ok(v)
            rep.ob("projection", con, ok, at, "" if ok else
                   "plots (%r, %r)" % (canon(v[0]), canon(v[1])))


def polar_ok(v):
    w = X + I * Y
    try:
        return equal(v[0], angle_of(w)) and equal(
            v[1] * v[1], absval(w) * absval(w))
    except Unsupported:
        return None


def plot(prog, rep, fi, mv):
    """plot hands the transformed data on in order"""
    ci = prog.cls(H + "HFToolsAxes")
    PX, PY = A("tx"), A("ty")

    def tab(mark):
        def f(args, kw):
            if len(args) == 2 and isinstance(args[0], RF) and isinstance(
                    args[1], RF) and equal(args[0], X) and equal(args[1], Y):
                return (A("tx" + mark), A("ty" + mark))
            return (A("bad-x"), A("bad-y"))
        return Func(f)

    def run(kw, own):
        got = []

        def cap(ev, args, k):
            a = [x for x in args if not isinstance(x, Obj)]
            got.append((a[:2], list(ev.conds)))
            return Opaque("lines")
        hk = hooks()
        hk.update({
            "plot": cap, "modvar": lambda ev, m: {
                "p": tab("p"), "q": tab("q")} if m is mv else NotImplemented,
            "isinstance": lambda ev, a, k: Opaque("isinstance") if not (
                isinstance(a[1], (Ext, ModVar)) and getattr(
                    a[1], "name", "").endswith(("str", "text_type"))) and
            a[1] is not str else False,
            "set_xlabel_unit": lambda ev, a, k: None,
            "set_ylabel_unit": lambda ev, a, k: None})
        variants(prog, fi, [Obj(ci, name=own), X, Y], kw, hooks=hk)
        return got

    for kw, own, want, what in (
            ({}, "p", ("txp", "typ"), "the axes' own projection"),
            ({"projection": "q"}, "p", ("txq", "tyq"),
             "the projection argument")):
        def go():
            got = run(dict(kw), own)
            if not got:
                rep.unsure("plot-order", fi, loc(fi), "no plot call")
            for a, _ in got:
                if len(a) != 2 or not all(isinstance(x, RF) for x in a):
                    rep.unsure("plot-order", fi, loc(fi), repr(a)[:80])
                    continue
                ok = equal(a[0], A(want[0])) and equal(a[1], A(want[1]))
                rep.ob("plot-order", fi.fullname + " " + what, ok, loc(fi),
                       "" if ok else "plots %r, %r instead of the "
                       "transformed (x, y)" % tuple(a))
        guarded(rep, "plot-order", fi, go)

    def cplx():
        got = run({}, "zzz")
        if not got:
            rep.unsure("plot-complex", fi, loc(fi), "no plot call")
        for a, _ in got:
            if len(a) != 2 or not all(isinstance(x, RF) for x in a):
                rep.unsure("plot-complex", fi, loc(fi), repr(a)[:80])
                continue
            ok = (equal(a[0], X) and equal(a[1], Y)) or (
                equal(a[0], real(Y)) and equal(a[1], imag(Y)))
            rep.ob("plot-complex", fi, ok, loc(fi), "" if ok else
                   "without projection plots %r, %r" % tuple(a))
    guarded(rep, "plot-complex", fi, cplx)


def registered(prog, rep):
    """every axes class whose name has a documented transformation is
    registered with matplotlib"""
    base = prog.cls(H + "HFToolsAxes")
    regs = {}
    for mod in prog.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else \
                    getattr(n.func, "id", "")
                if nm != "register_projection":
                    continue
                for a in n.args:
                    b = prog.resolve_expr(mod, a)
                    if isinstance(b, ClassInfo):
                        regs[b] = n
                    else:
                        regs["?"] = n
    names = {}
    for ci in prog.all_classes():
        nm = ci.attrs.get("name")
        if nm is None or not isinstance(nm, ast.Constant):
            continue
        if base in ci.mro() or any("Axes" in b for b in ci.ext_bases()):
            names.setdefault(nm.value, []).append(ci)
    documented = [k for k in specs() if k] + ["cplx", "smith",
                                               "rectilinear"]
    for k in documented:
        cs = names.get(k, [])
        if not cs:
            rep.ob("projection-class", repr(k), False if not regs.get("?")
                   else None, base.module.rel,
                   "no axes class is named %r" % k)
            continue
        ok = any(c in regs for c in cs)
        rep.ob("projection-registered", cs[0].fullname,
               ok or (None if "?" in regs else False),
               "%s:%d" % (cs[0].module.rel, cs[0].node.lineno),
               "" if ok else "projection %r is never registered" % k)


def smith(prog, rep):
    g = A("z")
    for nm, want in (("z2gamma", (g - C(1)) / (g + C(1))),
                     ("y2gamma", (C(1) - g) / (C(1) + g))):
        fi = prog.func(S + nm)

        def go():
            n = 0
            for v, ev in variants(prog, fi, [g]):
                if isinstance(v, RF) and "z" in v.atoms():
                    n += 1
                    ok = equal(v, want)
                    rep.ob("gamma", fi, ok, loc(fi), "" if ok else
                           "is %r" % (canon(v),))
            if not n:
                rep.unsure("gamma", fi, loc(fi), "no value")
        guarded(rep, "gamma", fi, go)
    r, x = A("r"), A("xx")
    for nm, p, z, adm in (("RCircle", r, r + I * x, False),
                          ("XCircle", x, r + I * x, False),
                          ("GCircle", r, r + I * x, True),
                          ("BCircle", x, r + I * x, True)):
        fi = prog.func(S + nm)
        G = (C(1) - z) / (C(1) + z) if adm else (z - C(1)) / (z + C(1))

        def go():
            got = []

            def new(ev, cls, args, kw):
                if cls.name == "MyCircle":
                    got.append(args)
                return Obj(cls)
            variants(prog, fi, [p], hooks={"new": new})
            if not got:
                rep.unsure("circle", fi, loc(fi), "no circle")
            for a in got:
                x0, y0, rad = rf(a[0]), rf(a[1]), rf(a[2])
                d = G - x0 - I * y0
                ok = equal(d * conj(d), rad * rad)
                rep.ob("circle", fi, ok, loc(fi), "" if ok else
                       "centre (%r, %r), radius %r is not the circle of "
                       "constant %s" % (canon(x0), canon(y0), canon(rad),
                                        nm[0].lower()))
        guarded(rep, "circle", fi, go)
