"""Engine terms -> rational functions over named atoms (see algebra, valnum)."""
from .algebra import RF
from .engine import cval, is_const
from .lib import fname, is_array_ctor, short
from .model import FuncInfo
from .valnum import (Unsupported, absval, conj, cis, expo, imag, logarithm,
                     power, real, rf, sqrt, variants)

IDENT = {"float", "asarray", "array", "asanyarray", "float64", "complex128",
         "complex", "hfarray", "atleast_1d", "squeeze", "copy", "astype",
         "ascontiguousarray", "str", "strip", "lstrip", "rstrip"}


def alg(t, leaf, prog=None):
    """RF of term t; leaf(term) gives the RF of the terms to be kept as
    atoms.  Raises Unsupported for anything it cannot represent exactly."""
    r = leaf(t)
    if r is not None:
        return r
    go = lambda x: alg(x, leaf, prog)  # noqa
    if is_const(t):
        v = cval(t)
        if isinstance(v, (int, float, complex)) and not isinstance(v, bool):
            return rf(v)
        raise Unsupported("constant %r" % (v,))
    if t.op == "bin":
        o, a, b = t.args[0], t.args[1], t.args[2]
        if o in ("Add", "Sub", "Mult", "Div"):
            a, b = go(a), go(b)
            return {"Add": lambda: a + b, "Sub": lambda: a - b,
                    "Mult": lambda: a * b, "Div": lambda: a / b}[o]()
        if o == "Pow":
            return power(go(a), go(b))
        raise Unsupported(o)
    if t.op == "un" and t.args[0] == "USub":
        return -go(t.args[1])
    if t.op == "un" and t.args[0] == "UAdd":
        return go(t.args[1])
    if t.op == "attr" and t.args[1] in ("real", "imag", "T"):
        x = go(t.args[0])
        return {"real": real, "imag": imag, "T": lambda y: y}[t.args[1]](x)
    if t.op == "ent" and fname(t) in ("numpy.pi", "math.pi"):
        return RF.atom("pi")
    if t.op == "phi":
        a, b = go(t.args[1]), go(t.args[2])
        if a == b:
            return a
        raise Unsupported("phi")
    if t.op == "call":
        f, args = t.args[0], t.args[1]
        n = short(f)
        if f.op == "attr":
            n, args = f.args[1], (f.args[0],) + tuple(args)
        one = {"exp": expo, "log": logarithm, "conj": conj, "real": real,
               "imag": imag, "sqrt": sqrt, "abs": absval,
               "absolute": absval, "conjugate": conj,
               "log10": lambda x: logarithm(x) / logarithm(RF.const(10)),
               "deg2rad": lambda x: x * RF.atom("pi") / RF.const(180),
               "radians": lambda x: x * RF.atom("pi") / RF.const(180),
               "rad2deg": lambda x: x * RF.const(180) / RF.atom("pi"),
               "degrees": lambda x: x * RF.const(180) / RF.atom("pi")}
        if n in ("power", "pow") and len(args) == 2:
            return power(go(args[0]), go(args[1]))
        if n in ("multiply", "add", "subtract", "divide") and len(args) == 2:
            a, b = go(args[0]), go(args[1])
            return {"multiply": lambda: a * b, "add": lambda: a + b,
                    "subtract": lambda: a - b, "divide": lambda: a / b}[n]()
        if n == "complex" and len(args) == 2:
            return go(args[0]) + RF.atom("I") * go(args[1])
        if n in IDENT and args or is_array_ctor(f) and args:
            return go(args[0])
        if f.op == "ent" and isinstance(f.args[0], FuncInfo) and prog and \
                not t.args[2]:
            vs = variants(prog, f.args[0], [go(a) for a in args])
            out = [v for v, _ in vs]
            if out and all(isinstance(v, RF) and v == out[0] for v in out):
                return out[0]
            raise Unsupported("several values")
        if n in one and len(args) == 1:
            return one[n](go(args[0]))
        if n in ("cos", "sin") and len(args) == 1:
            c = cis(go(args[0]))
            return real(c) if n == "cos" else imag(c)
    raise Unsupported(t.op)
