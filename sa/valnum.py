"""Polynomial value numbering of numeric code.

Straight-line numeric code (and code whose branches are decided by constant
flags) is abstracted to closed forms: every value becomes a rational function
over atoms (parameters, matrix cells, applications of known functions), a
small matrix of such functions, a constant, or opaque.  Two values are the
same function of the inputs when their normal forms agree.  Constructs outside
the fragment raise Unsupported and the obligation stays undecided."""
import ast
import re
from fractions import Fraction

from .algebra import RF, m_mul, p_add, p_const, p_mul
from .model import ClassInfo, Ext, FuncInfo, Module, ModVar


class Unsupported(Exception):
    pass


class Opaque(object):
    def __init__(self, tag=""):
        self.tag = tag

    def __repr__(self):
        return "<opaque %s>" % self.tag


class Mat(object):
    """matrix of RF; 'name' when it stands for an input"""

    def __init__(self, rows, cls=None):
        self.rows = [list(r) for r in rows]
        self.cls = cls

    @property
    def n(self):
        return len(self.rows)

    @property
    def m(self):
        return len(self.rows[0])

    @classmethod
    def named(cls, name, n=2, m=None, klass=None):
        return cls([[RF.atom("%s%d%d" % (name, i + 1, j + 1))
                     for j in range(m or n)] for i in range(n)], klass)

    def copy(self):
        return Mat(self.rows, self.cls)

    def map(self, f):
        return Mat([[f(x) for x in r] for r in self.rows], self.cls)

    def __repr__(self):
        return "Mat(%s)" % "; ".join(", ".join(map(repr, r))
                                     for r in self.rows)


class NC(object):
    """noncommutative polynomial in square matrices of one size"""

    def __init__(self, words, size):
        self.words = {w: c for w, c in words.items() if c}
        self.size = size

    @classmethod
    def named(cls, name, size):
        return cls({(name,): Fraction(1)}, size)

    def key(self):
        return tuple(sorted(self.words.items(), key=repr))

    def __add__(self, o):
        if not isinstance(o, NC) or o.size != self.size:
            raise Unsupported("sum of matrices of different size")
        w = dict(self.words)
        for k, c in o.words.items():
            w[k] = w.get(k, 0) + c
        return NC(w, self.size)

    def __neg__(self):
        return NC({k: -c for k, c in self.words.items()}, self.size)

    def __sub__(self, o):
        return self + (-o)

    def dot(self, o):
        if not isinstance(o, NC) or o.size != self.size:
            raise Unsupported("product of matrices of different size")
        w = {}
        for k, c in self.words.items():
            for l, d in o.words.items():
                w[k + l] = w.get(k + l, 0) + c * d
        return NC(w, self.size)

    def scale(self, c):
        return NC({k: c * v for k, v in self.words.items()}, self.size)

    def inv(self):
        if not self.words:
            raise Unsupported("inverse of zero")
        if len(self.words) == 1:
            (w, c), = self.words.items()
            out = NC({(): Fraction(1) / c}, self.size)
            for a in reversed(w):
                out = out.dot(NC({(a[1] if isinstance(a, tuple) and
                                   a[0] == "inv1" else ("inv1", a),):
                                  Fraction(1)}, self.size))
            return out
        lead = self.key()[0][1]
        return NC({(("inv", self.scale(1 / lead).key()),): 1 / lead},
                  self.size)

    def block(self, i, j):
        def rng(s):
            r = range(*s.indices(self.size))
            return (r.start, r.stop, r.step)
        a, b = rng(i), rng(j)
        n = a[1] - a[0]
        if n != b[1] - b[0]:
            raise Unsupported("rectangular block")
        return NC({(("blk", self.key(), a, b),): Fraction(1)}, n)

    def __eq__(self, o):
        return isinstance(o, NC) and self.key() == o.key()

    def __repr__(self):
        return "NC%r" % (self.key(),)


class Obj(object):
    """record with attributes (data block, instance)"""

    def __init__(self, cls=None, **attrs):
        self.cls = cls
        self.attrs = dict(attrs)


class Func(object):
    def __init__(self, f):
        self.f = f


class Lam(object):
    """local function"""

    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod


class Pieces(object):
    """array assembled from stores to constant index ranges; items maps the
    index text to a value, other elements have the base value"""

    def __init__(self, base, items=None):
        self.base = base
        self.items = dict(items or {})

    def map(self, f):
        return Pieces(f(self.base), {k: f(v) for k, v in self.items.items()})

    def zip(self, f, o):
        if not isinstance(o, Pieces):
            return self.map(lambda x: f(x, o))
        if set(o.items) != set(self.items):
            raise Unsupported("arrays assembled differently")
        return Pieces(f(self.base, o.base),
                      {k: f(v, o.items[k]) for k, v in self.items.items()})

    def __repr__(self):
        return "Pieces(%r)" % (self.items,)


REAL = {"pi", "k"}
ROOTS = {}        # key -> RF radicand
POSITIVE = {"pi", "k"}


def rf(v):
    if isinstance(v, RF):
        return v
    if isinstance(v, bool):
        raise Unsupported("bool in arithmetic")
    if isinstance(v, int):
        return RF.const(v)
    if isinstance(v, float):
        return RF.const(Fraction(repr(v)))
    if isinstance(v, complex):
        return rf(v.real) + rf(v.imag) * RF.atom("I")
    raise Unsupported("not numeric: %r" % (v,))


FNS = {}          # name -> [(args, atom)]


def fn(name, *args):
    """application of a known function; semantically equal arguments give
    the same atom"""
    args = [canon(rf(a)) for a in args]
    at = ("fn", name) + tuple(a.key() for a in args)
    known = FNS.setdefault(name, [])
    for old, a in known:
        if a == at or (len(old) == len(args) and all(
                equal(x, y) for x, y in zip(old, args))):
            return RF.atom(a)
    known.append((args, at))
    return RF.atom(at)


def fnargs(at):
    for args, a in FNS.get(at[1], ()):
        if a == at:
            return args
    return None


def logarithm(x):
    x = canon(simplify(rf(x)))
    if any(isinstance(a, tuple) and a[0] == "root" for a in x.atoms()):
        y = simplify(x * x)
        if not any(isinstance(a, tuple) and a[0] == "root"
                   for a in y.atoms()):
            return fn("log", y) / RF.const(2)
    return fn("log", x)


CISARG = {}


def cis(y):
    """exp(i y), one atom per monomial of y; conj(cis) = 1/cis"""
    y = canon(y)
    if len(y.den) != 1:
        lead = sorted(y.num.items(), key=repr)[0][1]
        if lead < 0:
            return RF.const(1) / cis(-y)
        a = ("cis", y.key())
        CISARG[a] = y
        return RF.atom(a)
    out = RF.const(1)
    for m, c in y.num.items():
        z = RF({m: abs(c)})
        CISARG[("cis", z.key())] = z
        a = RF.atom(("cis", z.key()))
        out = out * a if c > 0 else out / a
    return canon(out)


def angle_of(x):
    """argument of a complex number; the argument of a quotient and of its
    inverse differ in sign only"""
    x = canon(rf(x))
    i = canon(RF.const(1) / x) if x.num else x
    for old, a in FNS.get("angle", ()):
        if len(old) == 1 and equal(old[0], i) and not equal(old[0], x):
            return -RF.atom(a)
    return fn("angle", x)


def canon(x):
    x = simplify(x)
    # cancel a constant or monomial denominator, else keep the fraction with
    # a fixed leading coefficient
    if len(x.den) == 1:
        (m, c), = x.den.items()
        inv = tuple((a, -n) for a, n in m)
        return RF({m_mul(k, inv): v / c for k, v in x.num.items()})
    if x.den:
        lead = sorted(x.den.items(), key=repr)[0][1]
        return RF({m: c / lead for m, c in x.num.items()},
                  {m: c / lead for m, c in x.den.items()})
    return x


def simplify(x):
    """sqrt(r)**2 -> r in numerator and denominator"""
    for _ in range(8):
        ch = False
        parts = []
        for p in (x.num, x.den):
            tot = RF.const(0)
            hit = any(isinstance(a, tuple) and a[0] == "root" and abs(n) >= 2
                      for m in p for a, n in m)
            if not hit:
                parts.append(RF(p))
                continue
            ch = True
            for m, c in p.items():
                t = RF.const(c)
                for a, n in m:
                    if isinstance(a, tuple) and a[0] == "root" and \
                            abs(n) >= 2:
                        q = abs(n) // 2
                        r = ROOTS[a] ** q
                        t = t * (r if n > 0 else RF.const(1) / r)
                        if n % 2:
                            t = t * (RF.atom(a) if n > 0 else
                                     RF.const(1) / RF.atom(a))
                    else:
                        t = t * RF({((a, n),): Fraction(1)})
                tot = tot + t
            parts.append(tot)
        x = parts[0] / parts[1]
        if not ch:
            return x
    return x


def equal(a, b):
    d = simplify(rf(a) - rf(b))
    return not d.num


def is_real_atom(a):
    if a in REAL:
        return True
    if isinstance(a, tuple):
        if a[0] == "root":
            return a in REALROOTS
        if a[0] == "fn" and a[1] in ("abs", "angle", "arctan2"):
            return True
        if a[0] == "fn" and a[1] in ("log", "exp", "accumulate"):
            return all(is_real(x) for x in fnargs(a) or [RF.atom("I")])
    return False


REALROOTS = set()


def conj(x):
    x = rf(x)

    def p(poly):
        out = RF.const(0)
        for m, c in poly.items():
            t = RF.const(c)
            for a, n in m:
                if a == "I":
                    t = t * (-RF.atom("I")) ** n
                elif is_real_atom(a):
                    t = t * RF.atom(a) ** n
                elif isinstance(a, tuple) and a[0] == "cis":
                    if not is_real(CISARG[a]):
                        raise Unsupported("conj of exp")
                    t = t * RF.atom(a) ** -n
                elif isinstance(a, tuple) and a[0] == "conj":
                    t = t * RF.atom(a[1]) ** n
                elif isinstance(a, tuple) and a[0] in ("fn", "root"):
                    raise Unsupported("conj of %s" % (a[1],))
                else:
                    t = t * RF.atom(("conj", a)) ** n
            out = out + t
        return out
    return p(x.num) / p(x.den)


def real(x):
    return (rf(x) + conj(x)) / RF.const(2)


def imag(x):
    return (rf(x) - conj(x)) / (RF.const(2) * RF.atom("I"))


def is_real(x):
    try:
        return equal(x, conj(x))
    except Unsupported:
        return False


def sqrt(x):
    x = canon(rf(x))
    if not x.num:
        return x
    # perfect monomial squares of positive atoms
    if len(x.num) == 1 and len(x.den) == 1:
        (m, c), = (x / RF(p_const(1))).num.items()
        (dm, dc), = x.den.items()
        c = c / dc
        m = m_mul(m, tuple((a, -n) for a, n in dm))
        out = RF.const(1)
        from math import isqrt
        num, den = c.numerator, c.denominator
        if num > 0:
            a, b = isqrt(num), isqrt(den)
            rest = Fraction(1)
            if a * a == num and b * b == den:
                out = RF.const(Fraction(a, b))
            else:
                rest = c
            ok = True
            for at, n in m:
                if at in POSITIVE:
                    half, odd = divmod(n, 2)
                    out = out * RF.atom(at) ** half
                    if odd:
                        out = out * root(RF.atom(at))
                elif n % 2 == 0 and at in POSITIVE:
                    out = out * RF.atom(at) ** (n // 2)
                else:
                    ok = False
            if ok:
                return out * (root(RF.const(rest)) if rest != 1
                              else RF.const(1))
    # fractions are not reduced: look for a known root by cross product
    if len(x.den) > 1 or len(x.num) > 1:
        for at in sorted(POSITIVE, key=repr):
            if equal(x, RF.atom(at) ** 2):
                return RF.atom(at)
        for a in sorted(ROOTS, key=repr):
            if equal(x, ROOTS[a]):
                return RF.atom(a)
    return root(x)


def root(x):
    x = canon(x)
    a = ("root", x.key())
    ROOTS[a] = x
    if is_real(x):
        REALROOTS.add(a)   # radicand real and, where used, nonnegative
    return RF.atom(a)


def absval(x):
    x = rf(x)
    try:
        if is_real(x) and len(x.num) == 1 and len(x.den) == 1 and all(
                a in POSITIVE for p in (x.num, x.den) for m in p
                for a, n in m):
            return x
        s = simplify(x * conj(x))
        r = root(s)
        REALROOTS.add(list(r.num)[0][0][0])
        return r
    except Unsupported:
        return fn("abs", x)


def power(b, e):
    b, e = rf(b), canon(rf(e))
    if not e.num:
        return RF.const(1)
    if list(e.num) == [()] and e.den == p_const(1):
        c = e.num[()]
        if c.denominator == 1:
            return b ** int(c)
        if c.denominator == 2:
            return sqrt(b) ** int(c.numerator)
    if b.den == p_const(1) and list(b.num) == [()] and b.num[()] > 0:
        return expo(e * logarithm(b))
    return fn("pow", b, e)


def expo(x):
    """exp; exp(i y) = cos y + i sin y"""
    x = canon(rf(x))
    if not x.num:
        return RF.const(1)
    if all(dict(m).get("I", 0) == 1 for m in x.num):
        return cis(canon(x / RF.atom("I")))
    if len(x.den) == 1 and (len(x.num) > 1 or any(
            c < 0 for c in x.num.values())):
        out = RF.const(1)
        for m, c in x.num.items():
            t = RF({m: abs(c)})
            f = expo(t) if dict(m).get("I", 0) == 1 else fn("exp", t)
            out = out * f if c > 0 else out / f
        return canon(out)
    return fn("exp", x)


def mm(a, b):
    if a.m != b.n:
        raise Unsupported("matrix shapes")
    return Mat([[sum_([a.rows[i][k] * b.rows[k][j] for k in range(a.m)])
                 for j in range(b.m)] for i in range(a.n)])


def sum_(xs):
    out = RF.const(0)
    for x in xs:
        out = out + x
    return out


def det(a):
    if a.n != a.m:
        raise Unsupported("det of non-square")
    if a.n == 1:
        return a.rows[0][0]
    if a.n == 2:
        (p, q), (r, s) = a.rows
        return p * s - q * r
    out = RF.const(0)
    for j in range(a.n):
        if not a.rows[0][j].num:
            continue
        minor = Mat([r[:j] + r[j + 1:] for r in a.rows[1:]])
        t = a.rows[0][j] * det(minor)
        out = out + (t if j % 2 == 0 else -t)
    return out


def inverse(a):
    d = det(a)
    if not d.num:
        raise Unsupported("singular")
    n = a.n
    if n == 1:
        return Mat([[RF.const(1) / d]])
    cof = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            mi = Mat([r[:j] + r[j + 1:] for k, r in enumerate(a.rows)
                      if k != i])
            c = det(mi)
            cof[j][i] = (c if (i + j) % 2 == 0 else -c) / d
    return Mat(cof)


def elementwise(op, a, b):
    if isinstance(a, Pieces):
        return a.zip(lambda x, y: op(rf(x), rf(y)), b)
    if isinstance(b, Pieces):
        return b.map(lambda y: op(rf(a), rf(y)))
    if isinstance(a, Mat) and isinstance(b, Mat):
        if (a.n, a.m) != (b.n, b.m):
            raise Unsupported("shapes")
        return Mat([[op(x, y) for x, y in zip(r, s)]
                    for r, s in zip(a.rows, b.rows)], a.cls)
    if isinstance(a, Mat):
        b = rf(b)
        return a.map(lambda x: op(x, b))
    if isinstance(b, Mat):
        a = rf(a)
        return b.map(lambda x: op(a, x))
    return op(rf(a), rf(b))


def index_atoms(x, tag):
    """apply a constant subscript to every array atom of an elementwise
    expression"""
    x = rf(x)

    def p(poly):
        out = RF.const(0)
        for m, c in poly.items():
            t = RF.const(c)
            for a, n in m:
                if a == "I" or a in SCALARS:
                    t = t * RF.atom(a) ** n
                elif isinstance(a, str):
                    t = t * RF.atom("%s[%s]" % (a, tag)) ** n
                else:
                    raise Unsupported("subscript of %s" % (a,))
            out = out + t
        return out
    return p(x.num) / p(x.den)


SCALARS = {"pi", "k", "I"}

IDENT = {"make_same_dims", "make_same_dims_list"}
SAME = {"hfarray", "_hfarray", "asarray", "asanyarray", "array",
        "ascontiguousarray", "make_matrix", "copy", "matrix", "squeeze",
        "reorder_dimensions", "view", "asmatrix", "mat", "broadcast_arrays",
        "HFArray", "float", "complex", "real_if_close"}
UNARY = {"exp": expo, "sqrt": sqrt, "abs": absval, "absolute": absval,
         "fabs": absval, "real": real, "imag": imag, "conj": conj,
         "conjugate": conj, "negative": lambda x: -rf(x),
         "log10": lambda x: logarithm(x) / logarithm(RF.const(10)),
         "log": lambda x: logarithm(x),
         "log2": lambda x: logarithm(x) / logarithm(RF.const(2)),
         "deg2rad": lambda x: rf(x) * RF.atom("pi") / RF.const(180),
         "radians": lambda x: rf(x) * RF.atom("pi") / RF.const(180),
         "rad2deg": lambda x: rf(x) * RF.const(180) / RF.atom("pi"),
         "degrees": lambda x: rf(x) * RF.const(180) / RF.atom("pi"),
         "square": lambda x: rf(x) * rf(x),
         "floor": lambda x: fn("floor", x),
         "sign": lambda x: fn("sign", x),
         "reciprocal": lambda x: RF.const(1) / rf(x),
         "cos": lambda x: trig("cos", x), "sin": lambda x: trig("sin", x)}
BIN = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b,
       "multiply": lambda a, b: a * b, "divide": lambda a, b: a / b,
       "true_divide": lambda a, b: a / b, "power": power}


def trig(name, x):
    x = canon(rf(x))
    if not x.num:
        return RF.const(1 if name == "cos" else 0)
    c = cis(x)
    if name == "cos":
        return (c + RF.const(1) / c) / RF.const(2)
    return (c - RF.const(1) / c) / (RF.const(2) * RF.atom("I"))


class Raises(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Eval(object):
    def __init__(self, prog, hooks=None, n=2, opaque=(), depth=8):
        self.prog = prog
        self.hooks = hooks or {}
        self.n = n
        self.opaque = set(opaque)
        self.depth = depth
        self.visited = set()
        self.plan = None
        self.nchoice = 0
        self.conds = []
        self.chosen = {}
        self.nsteps = 0

    # -- functions ---------------------------------------------------------
    def call_fi(self, fi, args, kw=None, env=None):
        """value of a call of the package function fi"""
        kw = dict(kw or {})
        if self.depth <= 0:
            raise Unsupported("depth")
        self.visited.add(fi)
        a = fi.node.args
        loc = {}
        pos = [x.arg for x in a.args]
        dflt = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        args = list(args)
        for p in pos:
            if args:
                loc[p] = args.pop(0)
            elif p in kw:
                loc[p] = kw.pop(p)
            elif p in dflt:
                loc[p] = self.expr(dflt[p], {}, fi.module)
            else:
                raise Unsupported("missing argument %s" % p)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            loc[p.arg] = kw.pop(p.arg) if p.arg in kw else (
                self.expr(d, {}, fi.module) if d is not None
                else Opaque("kwonly"))
        if a.vararg:
            loc[a.vararg.arg] = tuple(args)
        elif args:
            raise Unsupported("too many arguments")
        if a.kwarg:
            loc[a.kwarg.arg] = kw
        elif kw:
            raise Unsupported("unexpected keyword")
        self.depth -= 1
        try:
            self.block(fi.node.body, loc, fi.module)
        except Return as r:
            return r.v
        finally:
            self.depth += 1
        return None

    # -- statements ----------------------------------------------------------
    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        self.nsteps += 1
        if self.nsteps > 20000:
            raise Unsupported("too long")
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, ast.Call):
                f = s.value.func
                if isinstance(f, ast.Attribute) and f.attr == "append":
                    o = self.expr(f.value, env, mod)
                    if isinstance(o, list):
                        o.append(self.expr(s.value.args[0], env, mod))
                        return
                name = f.attr if isinstance(f, ast.Attribute) else getattr(
                    f, "id", "")
                if name in ("warn", "warning", "info", "debug", "print"):
                    return
                self.expr(s.value, env, mod)
                return
            return
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env, mod)
            for t in s.targets:
                self.assign(t, v, env, mod)
            return
        if isinstance(s, ast.AugAssign):
            cur = self.expr(s.target, env, mod)
            v = self.binop(s.op, cur, self.expr(s.value, env, mod))
            self.assign(s.target, v, env, mod)
            return
        if isinstance(s, ast.Return):
            raise Return(self.expr(s.value, env, mod)
                         if s.value is not None else None)
        if isinstance(s, ast.If):
            c = self.truth(self.expr(s.test, env, mod))
            self.block(s.body if c else s.orelse, env, mod)
            return
        if isinstance(s, ast.For):
            it = self.expr(s.iter, env, mod)
            if isinstance(it, (list, tuple, range)) and not s.orelse:
                for v in list(it):
                    self.assign(s.target, v, env, mod)
                    self.block(s.body, env, mod)
                return
            raise Unsupported("loop over %r" % (it,))
        if isinstance(s, (ast.Pass, ast.Import, ast.Global)):
            return
        if isinstance(s, ast.ImportFrom):
            for a in s.names:
                env.pop(a.asname or a.name, None)
            return
        if isinstance(s, ast.FunctionDef):
            env[s.name] = Lam(s, env, mod)
            return
        if isinstance(s, ast.Assert):
            return
        if isinstance(s, ast.Raise):
            raise Raises()
        raise Unsupported(type(s).__name__)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.seq(v)
            if len(vs) != len(t.elts):
                raise Unsupported("unpack")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env, mod)
            idx = self.index(t.slice, env, mod)
            if isinstance(o, Mat):
                if idx in ((Ellipsis,), (slice(None, None, None),)):
                    if isinstance(v, Mat):
                        o.rows = v.copy().rows
                    else:
                        v = rf(v)
                        o.rows = [[v for _ in r] for r in o.rows]
                    return
                i, j = self.cell(o, idx)
                if not (isinstance(i, int) and isinstance(j, int)):
                    raise Unsupported("block store")
                if isinstance(v, Opaque):
                    raise Unsupported("store of %r" % (v,))
                o.rows[i][j] = rf(v)
            elif isinstance(o, dict):
                o[idx[0] if len(idx) == 1 else idx] = v
            elif isinstance(o, list) and len(idx) == 1 and isinstance(
                    idx[0], int):
                o[idx[0]] = v
            elif isinstance(o, Opaque):
                pass
            elif isinstance(o, (RF, Pieces)) and isinstance(
                    t.value, ast.Name):
                if isinstance(o, RF):
                    o = env[t.value.id] = Pieces(o)
                if isinstance(v, Opaque):
                    raise Unsupported("store of %r" % (v,))
                o.items[",".join(self.ishow(x) for x in idx)] = rf(v)
            else:
                raise Unsupported("store into %r" % (o,))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env, mod)
            if isinstance(o, Obj):
                self.setattr(o, t.attr, v)
            elif isinstance(o, Opaque) or t.attr in ("dims", "unit",
                                                     "outputformat", "Z0"):
                pass
            else:
                raise Unsupported("attribute store %s" % t.attr)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred")
        else:
            raise Unsupported("target")

    def setattr(self, o, name, v):
        m = re.match(r"^(\w*?[A-Za-z_])(\d)(\d)$", name)
        if m and isinstance(o.attrs.get(m.group(1)), Mat):
            o.attrs[m.group(1)] = c = o.attrs[m.group(1)].copy()
            c.rows[int(m.group(2)) - 1][int(m.group(3)) - 1] = rf(v)
        else:
            o.attrs[name] = v

    def getattr(self, o, name):
        if name in o.attrs:
            return o.attrs[name]
        m = re.match(r"^(\w*?[A-Za-z_])(\d)(\d)$", name)
        if m and isinstance(o.attrs.get(m.group(1)), Mat):
            return o.attrs[m.group(1)].rows[int(m.group(2)) - 1][
                int(m.group(3)) - 1]
        return Opaque(name)

    # -- expressions -----------------------------------------------------------
    def truth(self, v):
        if isinstance(v, (bool, int, float, str, tuple, list, dict)) or \
                v is None:
            return bool(v)
        if isinstance(v, Opaque):
            return self.choose(v)
        raise Unsupported("branch on %r" % (v,))

    def choose(self, v):
        """an undecided test: take the alternative asked for"""
        if self.plan is None:
            raise Unsupported("branch on %r" % (v,))
        if id(v) in self.chosen:
            return self.chosen[id(v)][1]
        i = self.nchoice
        self.nchoice += 1
        if i >= len(self.plan):
            self.plan.append(True)
        self.conds.append((getattr(v, "cmp", None), self.plan[i]))
        self.chosen[id(v)] = (v, self.plan[i])
        return self.plan[i]

    def seq(self, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, range):
            return list(v)
        raise Unsupported("sequence expected: %r" % (v,))

    def index(self, sl, env, mod):
        if isinstance(sl, ast.Tuple):
            return tuple(x for e in sl.elts
                         for x in self.index1(e, env, mod))
        r = self.index1(sl, env, mod)
        if len(r) == 1 and isinstance(r[0], tuple):
            return r[0]
        return r

    def index1(self, e, env, mod):
        if isinstance(e, ast.Slice):
            def g(x):
                if x is None:
                    return None
                v = self.expr(x, env, mod)
                if v is not None and not isinstance(v, int):
                    raise Unsupported("slice bound")
                return v
            return (slice(g(e.lower), g(e.upper), g(e.step)),)
        if isinstance(e, ast.Starred):
            return tuple(self.seq(self.expr(e.value, env, mod)))
        return (self.expr(e, env, mod),)

    def cell(self, o, idx):
        idx = [x for x in idx if x is not Ellipsis]
        if len(idx) != 2:
            raise Unsupported("matrix index %r" % (idx,))
        return idx

    def subscript(self, o, idx):
        if isinstance(o, NC):
            i, j = self.cell(o, idx)
            if isinstance(i, slice) and isinstance(j, slice):
                return o.block(i, j)
            raise Unsupported("element of a matrix")
        if isinstance(o, Mat):
            if idx == (Ellipsis,) or idx == (slice(None, None, None),):
                return o
            i, j = self.cell(o, idx)
            if isinstance(i, int) and isinstance(j, int):
                return o.rows[i][j]
            if isinstance(i, slice) and isinstance(j, slice):
                return Mat([r[j] for r in o.rows[i]])
            raise Unsupported("row of a matrix")
        if isinstance(o, (tuple, list, str, range)) and len(idx) == 1 and \
                isinstance(idx[0], (int, slice)):
            return o[idx[0]]
        if isinstance(o, dict) and len(idx) == 1:
            return o[idx[0]]
        if isinstance(o, RF):
            idx = tuple(x for x in idx)
            return index_atoms(o, ",".join(self.ishow(x) for x in idx))
        if isinstance(o, Opaque):
            return Opaque("sub")
        raise Unsupported("subscript of %r" % (o,))

    def ishow(self, x):
        if isinstance(x, slice):
            return ":".join("" if y is None else str(y)
                            for y in (x.start, x.stop, x.step)
                            ).rstrip(":") + (":" if x.start is not None and
                                             x.stop is None else "")
        if x is Ellipsis:
            return "..."
        if isinstance(x, int):
            return str(x)
        if isinstance(x, RF):
            return repr(canon(x).key())
        raise Unsupported("index %r" % (x,))

    def name(self, nm, env, mod):
        if nm in env:
            return env[nm]
        e = getattr(self, "closure", {}).get(nm)
        if e is not None:
            return e
        b = self.prog.lookup(mod, nm) if mod is not None else None
        if b is None:
            import builtins
            if hasattr(builtins, nm):
                return Ext("builtins." + nm)
            raise Unsupported("name %s" % nm)
        return self.entity(b)

    def entity(self, b):
        if isinstance(b, Ext):
            return self.ext(b)
        return b

    def ext(self, b):
        if b.name in ("numpy.pi", "math.pi"):
            return RF.atom("pi")
        if b.name in ("numpy.e", "math.e"):
            return fn("exp", RF.const(1))
        if b.name == "numpy.newaxis":
            return None
        return b

    def expr(self, e, env, mod):
        self.nsteps += 1
        if self.nsteps > 20000:
            raise Unsupported("too long")
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported(type(e).__name__)
        return f(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, complex):
            return rf(v)
        return v

    def e_Name(self, e, env, mod):
        v = self.name(e.id, env, mod)
        return self.mv(v) if isinstance(v, ModVar) else v

    def mv(self, v):
        if v.fullname.startswith("hftools.constants") and v.name == "k":
            return RF.atom("k")
        if v.name in SAME:
            return v
        if self.prog.rebound(v):
            return Opaque(v.name)
        h = self.hooks.get("modvar")
        if h:
            r = h(self, v)
            if r is not NotImplemented:
                return r
        vals = v.nodes
        if len(vals) == 1 and isinstance(vals[0], ast.expr):
            return self.expr(vals[0], {}, v.module)
        return Opaque(v.name)

    def e_Tuple(self, e, env, mod):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.seq(self.expr(x.value, env, mod)))
            else:
                out.append(self.expr(x, env, mod))
        return tuple(out)

    def e_List(self, e, env, mod):
        return list(self.e_Tuple(e, env, mod))

    def e_Dict(self, e, env, mod):
        return {self.expr(k, env, mod): self.expr(v, env, mod)
                for k, v in zip(e.keys, e.values) if k is not None}

    def e_Set(self, e, env, mod):
        return Opaque("set")

    def e_Lambda(self, e, env, mod):
        return Lam(e, env, mod)

    def comp(self, e, env, mod):
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        try:
            it = self.seq(self.expr(g.iter, env, mod))
        except Unsupported:
            return None
        out = []
        try:
            for v in it:
                loc = dict(env)
                self.assign(g.target, v, loc, mod)
                if all(self.truth(self.expr(c, loc, mod)) for c in g.ifs):
                    out.append(self.expr(e.elt, loc, mod))
        except Unsupported:
            return None
        return out

    def e_ListComp(self, e, env, mod):
        r = self.comp(e, env, mod)
        return r if r is not None else Opaque("comprehension")

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env, mod):
        return Opaque("comprehension")

    e_DictComp = e_SetComp
    e_JoinedStr = e_SetComp

    def e_Attribute(self, e, env, mod):
        o = self.expr(e.value, env, mod)
        return self.attribute(o, e.attr)

    def attribute(self, o, a):
        if isinstance(o, Obj):
            if a not in o.attrs and o.cls is not None:
                m = o.cls.find(a) if hasattr(o.cls, "find") else None
                if isinstance(m, FuncInfo) and "property" in [
                        getattr(d, "id", "") for d in m.decorators]:
                    return self.call_fi(m, [o])
                if isinstance(m, FuncInfo):
                    return ("method", o, a)
            v = self.getattr(o, a)
            if isinstance(v, Opaque) and a == "copy":
                return ("method", o, a)
            return v
        if isinstance(o, NC):
            if a == "shape":
                return (o.size, o.size)
            if a in ("copy", "dot"):
                return ("method", o, a)
            return Opaque(a)
        if isinstance(o, Mat):
            if a == "dims" and "dims" in self.hooks:
                return self.hooks["dims"](self, [o], {})
            if a == "shape":
                return (o.n, o.m)
            if a == "ndim":
                return 2
            if a == "real":
                return o.map(real)
            if a == "imag":
                return o.map(imag)
            if a == "__class__":
                return Func(lambda args, kw: args[0])
            if a == "T":
                return Mat(list(zip(*o.rows)), o.cls)
            if a in ("dims", "dtype", "unit", "strides", "Z0",
                     "outputformat"):
                return Opaque(a)
            return ("method", o, a)
        if isinstance(o, Pieces):
            if a == "real":
                return o.map(real)
            if a in ("dims", "dtype", "shape", "ndim", "unit", "size"):
                return Opaque(a)
            return ("method", o, a)
        if isinstance(o, RF):
            if a == "real":
                return real(o)
            if a == "imag":
                return imag(o)
            if a == "flat":
                return Opaque(a)
            if a in ("dims", "dtype", "unit", "shape", "ndim", "size",
                     "outputformat"):
                return Opaque(a)
            if a == "__class__":
                return Func(lambda args, kw: args[0])
            return ("method", o, a)
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return self.attribute(rf(o), a)
        if isinstance(o, Ext):
            return self.ext(Ext(o.name + "." + a))
        if isinstance(o, Module):
            b = self.prog.lookup(o, a) or self.prog.attr_of(o, a)
            if b is None:
                raise Unsupported("no %s.%s" % (o.name, a))
            b = self.entity(b)
            return self.mv(b) if isinstance(b, ModVar) else b
        if isinstance(o, ClassInfo):
            return Opaque(a)
        if isinstance(o, (tuple, list, str, dict)):
            return ("method", o, a)
        if isinstance(o, Opaque):
            return Opaque(a)
        raise Unsupported("attribute %s of %r" % (a, o))

    def e_Subscript(self, e, env, mod):
        o = self.expr(e.value, env, mod)
        return self.subscript(o, self.index(e.slice, env, mod))

    def e_BinOp(self, e, env, mod):
        return self.binop(e.op, self.expr(e.left, env, mod),
                          self.expr(e.right, env, mod))

    def binop(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("bin")
        if isinstance(a, NC) or isinstance(b, NC):
            if isinstance(a, NC) and isinstance(b, NC):
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.MatMult):
                    return a.dot(b)
                raise Unsupported("elementwise product of matrices")
            if isinstance(op, (ast.Mult, ast.Div)) and isinstance(
                    b if isinstance(a, NC) else a, (int, float)):
                c = Fraction(repr(b if isinstance(a, NC) else a))
                if isinstance(op, ast.Div):
                    if not isinstance(a, NC):
                        raise Unsupported("scalar / matrix")
                    c = 1 / c
                return (a if isinstance(a, NC) else b).scale(c)
            raise Unsupported("matrix operator")
        if isinstance(a, (tuple, list)) and isinstance(op, ast.Mult) and \
                isinstance(b, int):
            return a * b
        if isinstance(b, (tuple, list)) and isinstance(op, ast.Mult) and \
                isinstance(a, int):
            return b * a
        if isinstance(a, (tuple, list)) and isinstance(op, ast.Add):
            return type(a)(list(a) + list(self.seq(b)))
        if isinstance(a, str) and isinstance(op, (ast.Mod, ast.Add)):
            return Opaque("text")
        if isinstance(a, int) and isinstance(b, int) and isinstance(
                op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)):
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                    ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
                    ast.Mod: lambda: a % b}[type(op)]()
        f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y,
             ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y,
             ast.Pow: power,
             ast.Mod: lambda x, y: fn("mod", x, y),
             ast.FloorDiv: lambda x, y: (x - fn("mod", x, y)) / y}.get(
                 type(op))
        if isinstance(op, ast.MatMult):
            if isinstance(a, Mat) and isinstance(b, Mat):
                return mm(a, b)
        if f is None:
            raise Unsupported("operator")
        return elementwise(f, a, b)

    def e_UnaryOp(self, e, env, mod):
        v = self.expr(e.operand, env, mod)
        if isinstance(e.op, ast.Not) and isinstance(v, Opaque):
            return not self.choose(v)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Opaque):
            return v
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            if isinstance(v, NC):
                return -v
            return v.map(lambda x: -x) if isinstance(v, Mat) else -rf(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary")

    def e_IfExp(self, e, env, mod):
        return self.expr(e.body if self.truth(self.expr(e.test, env, mod))
                         else e.orelse, env, mod)

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.expr(x, env, mod)
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def e_Compare(self, e, env, mod):
        xs = [e.left] + list(e.comparators)
        if len(e.ops) != 1:
            for i, op in enumerate(e.ops):
                r = self.e_Compare(ast.Compare(xs[i], [op], [xs[i + 1]]),
                                   env, mod)
                if not self.truth(r):
                    return False
            return True
        a = self.expr(e.left, env, mod)
        b = self.expr(e.comparators[0], env, mod)
        op = e.ops[0]
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or a is None:
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    return Opaque("is None")
                return ((a is None) == (b is None)) == isinstance(op, ast.Is)
        simple = (int, float, str, bool, type(None), tuple)
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, (
                dict, list)) and isinstance(a, simple) and all(
                isinstance(x, simple) for x in b):
            return (a in b) == isinstance(op, ast.In)
        if isinstance(a, simple) and isinstance(b, simple):
            r = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b,
                 ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                 ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                 ast.In: lambda: a in b,
                 ast.NotIn: lambda: a not in b}.get(type(op))
            if r is not None:
                return r()
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("comparison")
        if all(isinstance(x, (RF, Mat, int, float, Pieces))
               for x in (a, b)):
            o = Opaque("comparison")
            o.cmp = (type(op).__name__, a, b)
            return o
        raise Unsupported("comparison")

    def e_Call(self, e, env, mod):
        f = self.expr(e.func, env, mod)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, env, mod)
                if isinstance(v, Opaque):
                    args.append(Opaque("star"))
                else:
                    args.extend(self.seq(v))
            else:
                args.append(self.expr(x, env, mod))
        kw = {}
        for k in e.keywords:
            v = self.expr(k.value, env, mod)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported("**")
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Func):
            return f.f(args, kw)
        if isinstance(f, tuple) and f and f[0] == "method":
            return self.method(f[1], f[2], args, kw)
        if isinstance(f, Lam):
            loc = dict(f.env)
            a = f.node.args
            if len(args) > len(a.args) or kw or a.vararg:
                raise Unsupported("local call")
            d = a.defaults
            names = [x.arg for x in a.args]
            for n, dv in zip(names[len(names) - len(d):], d):
                loc[n] = self.expr(dv, f.env, f.mod)
            loc.update(zip(names, args))
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body, loc, f.mod)
            try:
                self.block(f.node.body, loc, f.mod)
            except Return as r:
                return r.v
            return None
        nm = short(f)
        if nm in self.hooks:
            return self.hooks[nm](self, args, kw)
        if isinstance(f, FuncInfo):
            if nm in IDENT:
                return tuple(x.copy() if isinstance(x, Mat) else x for x in (
                    args if len(args) > 1 else self.seq(args[0])))
            if nm in SAME and args and isinstance(args[0], (Mat, RF, Pieces)):
                return self.same(args[0])
            if f.fullname in self.opaque or nm in self.opaque:
                return Opaque(nm)
            return self.call_fi(f, args, kw)
        if isinstance(f, ClassInfo):
            h = self.hooks.get("new")
            if h:
                r = h(self, f, args, kw)
                if r is not NotImplemented:
                    return r
            if args and isinstance(args[0], (Mat, RF, Pieces)):
                r = self.same(args[0])
                return r
            if args and isinstance(args[0], list):
                return self.array(args[0])
            return Opaque(nm)
        if isinstance(f, ModVar):
            if args and isinstance(args[0], (Mat, RF, Pieces)) and nm in SAME:
                return self.same(args[0])
            return Opaque(nm)
        if isinstance(f, Ext):
            return self.extcall(f.name, nm, args, kw)
        if isinstance(f, Opaque):
            if f.tag in ("klass", "__class__") and args:
                return args[0]
            return Opaque("call")
        raise Unsupported("call of %r" % (f,))

    def same(self, x):
        if isinstance(x, Pieces):
            return Pieces(x.base, x.items)
        return x.copy() if isinstance(x, Mat) else x

    def array(self, v):
        if isinstance(v, (Mat, RF, Pieces)):
            return self.same(v)
        if isinstance(v, (list, tuple)) and v and all(
                isinstance(r, (list, tuple)) for r in v):
            return Mat([[rf(x) for x in r] for r in v])
        if isinstance(v, (int, float)):
            return rf(v)
        return Opaque("array")

    def method(self, o, a, args, kw):
        if isinstance(o, Obj):
            if a == "copy":
                return Obj(o.cls, **{k: self.same(v) if isinstance(v, Mat)
                                     else v for k, v in o.attrs.items()})
            if a in self.hooks:
                return self.hooks[a](self, [o] + args, kw)
            m = o.cls.find(a) if o.cls is not None else None
            if isinstance(m, FuncInfo):
                return self.call_fi(m, [o] + args, kw)
            raise Unsupported("method %s" % a)
        if isinstance(o, NC):
            return o.dot(args[0]) if a == "dot" else o
        if isinstance(o, Pieces):
            if a in SAME or a in ("copy", "view"):
                return self.same(o)
            raise Unsupported("method %s" % a)
        if isinstance(o, (Mat, RF)):
            if a in ("min", "max") and isinstance(o, RF) and not args:
                return fn(a, o)
            if a in SAME or a in ("reorder_dimensions", "astype", "copy",
                                  "view", "squeeze"):
                return self.same(o)
            if a in ("conj", "conjugate"):
                return o.map(conj) if isinstance(o, Mat) else conj(o)
            if a == "dot" and isinstance(o, Mat):
                return mm(o, args[0])
            if a in ("__getitem__",):
                i = args[0]
                return self.subscript(o, i if isinstance(i, tuple) else (i,))
            if a in ("__truediv__", "__div__"):
                return elementwise(lambda x, y: x / y, o, args[0])
            if a == "dims_index":
                if isinstance(o, Mat) and args and args[0] in ("i", "j"):
                    return 0 if args[0] == "i" else 1
                return Opaque(a)
            if a in ("transpose", "swapaxes") and isinstance(o, Mat):
                return transposed(o, a, args)
            raise Unsupported("method %s" % a)
        if isinstance(o, list) and a == "append":
            o.append(args[0])
            return None
        if isinstance(o, dict) and a in ("get", "pop") and args and \
                isinstance(args[0], (str, type(None), int)) and not kw:
            if args[0] in o:
                return o.pop(args[0]) if a == "pop" else o[args[0]]
            if len(args) > 1:
                return args[1]
            if a == "get":
                return None
            raise Raises()
        if isinstance(o, dict) and a == "copy":
            return dict(o)
        if isinstance(o, dict) and a == "setdefault" and len(args) == 2:
            return o.setdefault(args[0], args[1])
        return Opaque(a)

    def where(self, a, b):
        """elementwise choice: any mixture of the two alternatives; the
        alternatives are explored for all elements at once"""
        return a if self.choose(Opaque("where")) else b

    def extcall(self, full, nm, args, kw):
        if full == "builtins.isinstance":
            h = self.hooks.get("isinstance")
            if h:
                return h(self, args, kw)
            return Opaque("isinstance")
        if full == "builtins.len" and isinstance(args[0], (list, tuple)):
            return len(args[0])
        if full == "builtins.range" and all(isinstance(x, int)
                                            for x in args):
            return range(*args)
        if full in ("builtins.list", "builtins.tuple") and args and \
                isinstance(args[0], (list, tuple, range)):
            return (list if full.endswith("list") else tuple)(args[0])
        if full == "builtins.zip" and all(isinstance(x, (list, tuple, range))
                                          for x in args):
            return list(zip(*args))
        if full == "builtins.enumerate" and isinstance(args[0], (list,
                                                                 tuple)):
            return list(enumerate(*args))
        if full == "builtins.sum" and isinstance(args[0], list):
            return sum_([rf(x) for x in args[0]])
        if full in ("builtins.float", "builtins.complex") and len(
                args) == 1 and isinstance(args[0], (RF, int, float)):
            return args[0]
        if full == "builtins.complex" and len(args) == 2:
            return rf(args[0]) + rf(args[1]) * RF.atom("I")
        if full == "builtins.dict" and not args:
            return dict(kw)
        if full in ("builtins.getattr", "builtins.hasattr") and len(
                args) >= 2 and isinstance(args[1], str):
            if nm == "hasattr":
                return Opaque(nm)
            return self.attribute(args[0], args[1])
        if full.startswith("builtins.") and nm in ("max", "min", "zip",
                                                   "set", "sorted", "any",
                                                   "all", "len", "range",
                                                   "list", "tuple", "dict",
                                                   "map", "str", "type"):
            if nm == "type" and isinstance(args[0], (Mat, RF, Pieces)):
                return Func(lambda a, k: a[0])
            return Opaque(nm)
        if nm in UNARY and args and (full.startswith("numpy") or
                                     full.startswith("builtins") or
                                     full.startswith("math") or
                                     full.startswith("cmath")):
            x = args[0]
            if isinstance(x, Opaque):
                return x
            return x.map(UNARY[nm]) if isinstance(x, (Mat, Pieces)) \
                else UNARY[nm](x)
        if nm in BIN and len(args) == 2 and full.startswith("numpy"):
            return elementwise(BIN[nm], *args)
        if full.startswith("numpy"):
            if nm == "searchsorted" and len(args) == 2 and not kw and all(
                    isinstance(a, RF) for a in args):
                return fn("searchsorted", *args)
            if full in ("numpy.add.accumulate", "numpy.cumsum") and \
                    isinstance(args[0], RF):
                ax = kw.get("axis", args[1] if len(args) > 1 else None)
                if ax != 0:
                    raise Unsupported("accumulate axis")
                return fn("accumulate", args[0])
            if nm == "diff" and isinstance(args[0], RF) and (
                    not kw and len(args) == 1 or
                    kw == {"axis": 0} and len(args) == 1):
                return self.subscript(args[0], (slice(1, None, None),)) - \
                    self.subscript(args[0], (slice(None, -1, None),))
            if nm == "angle":
                deg = kw.get("deg", args[1] if len(args) > 1 else False)
                if isinstance(args[0], Pieces):
                    r = args[0].map(angle_of)
                else:
                    r = angle_of(args[0])
                if isinstance(deg, bool):
                    return r * RF.const(180) / RF.atom("pi") if deg else r
                raise Unsupported("angle deg")
            if nm in ("zeros", "zeros_like", "empty", "empty_like", "ones"):
                if nm.endswith("_like") and isinstance(args[0], Mat):
                    n, m = args[0].n, args[0].m
                elif isinstance(args[0], (tuple, list)) and all(
                        isinstance(x, int) for x in args[0][-2:]) and \
                        len(args[0]) >= 2:
                    n, m = args[0][-2:]
                else:
                    n = m = self.n
                z = RF.atom("?") if nm.startswith("empty") else RF.const(
                    1 if nm == "ones" else 0)
                return Mat([[z] * m for _ in range(n)])
            if nm in ("identity", "eye") and isinstance(args[0], int):
                return Mat([[RF.const(int(i == j))
                             for j in range(args[0])]
                            for i in range(args[0])])
            if nm == "diag" and isinstance(args[0], (list, tuple)):
                n = len(args[0])
                return Mat([[rf(args[0][i]) if i == j else RF.const(0)
                             for j in range(n)] for i in range(n)])
            if nm in ("bmat", "block") and isinstance(args[0], list):
                rows = []
                for br in args[0]:
                    bs = [b if isinstance(b, Mat) else None for b in br]
                    if None in bs:
                        raise Unsupported("bmat")
                    for i in range(bs[0].n):
                        rows.append([x for b in bs for x in b.rows[i]])
                return Mat(rows)
            if nm in ("hstack", "vstack", "concatenate"):
                bs = self.seq(args[0])
                if all(isinstance(b, Mat) for b in bs):
                    if nm == "hstack":
                        return Mat([[x for b in bs for x in b.rows[i]]
                                    for i in range(bs[0].n)])
                    if nm == "vstack":
                        return Mat([r for b in bs for r in b.rows])
                raise Unsupported(nm)
            if nm in ("dot", "matmul") and all(isinstance(a, Mat)
                                               for a in args):
                return mm(*args)
            if nm == "einsum" and isinstance(args[0], str) and len(
                    args) == 3:
                return einsum(args[0], args[1], args[2])
            if full == "numpy.linalg.inv":
                return inverse(args[0])
            if full == "numpy.linalg.det":
                return det(args[0])
            if full == "numpy.linalg.solve":
                return mm(inverse(args[0]), args[1])
            if nm in ("array", "asarray", "asanyarray", "asmatrix", "mat",
                      "ascontiguousarray"):
                return self.array(args[0])
            if nm in ("swapaxes", "transpose", "moveaxis") and isinstance(
                    args[0], Mat):
                return transposed(args[0], nm, args[1:] +
                                  ([kw["axes"]] if "axes" in kw else []))
            if nm == "where" and len(args) == 3:
                return self.where(args[1], args[2])
        if nm in self.opaque or nm in (
                "result_type", "promote_types", "dtype", "common_type",
                "find_common_type", "broadcast_shapes", "shape", "ndim",
                "size", "iscomplexobj", "isscalar", "median", "isinf",
                "isnan", "isfinite", "any", "all"):
            return Opaque(nm)
        raise Unsupported("call of %s" % full)


def transposed(o, name, args):
    """the matrix axes swapped or not, for constant axis arguments"""
    if name == "transpose":
        if len(args) == 1 and isinstance(args[0], (tuple, list)):
            args = list(args[0])
        if args and not (len(args) == 2 and all(
                isinstance(x, int) for x in args)):
            raise Unsupported("transpose")
        swap = not args or [x % 2 for x in args] == [1, 0]
    else:
        if len(args) != 2 or not all(isinstance(x, int) for x in args):
            raise Unsupported(name)
        swap = args[0] % 2 != args[1] % 2
    return Mat(list(zip(*o.rows)) if swap else o.rows, o.cls)


def einsum(spec, a, b):
    spec = spec.replace(" ", "").replace("...", "")
    if "->" not in spec or spec.count(",") != 1:
        raise Unsupported("einsum")
    ins, out = spec.split("->")
    x, y = ins.split(",")
    if not (isinstance(a, Mat) and isinstance(b, Mat)) or \
            len(x) != 2 or len(y) != 2 or len(out) != 2:
        raise Unsupported("einsum")
    size = {}
    for l, d in zip(x + y, (a.n, a.m, b.n, b.m)):
        size[l] = d
    if any(c not in size for c in out):
        raise Unsupported("einsum")
    summed = [c for c in sorted(size) if c not in out]
    rows = [[RF.const(0)] * size[out[1]] for _ in range(size[out[0]])]
    import itertools
    for i in range(size[out[0]]):
        for j in range(size[out[1]]):
            tot = RF.const(0)
            if out[0] == out[1] and i != j:
                raise Unsupported("einsum diag")
            for c in itertools.product(*[range(size[s]) for s in summed]):
                ix = dict(zip(summed, c))
                ix[out[0]] = i
                ix[out[1]] = j
                tot = tot + a.rows[ix[x[0]]][ix[x[1]]] * \
                    b.rows[ix[y[0]]][ix[y[1]]]
            rows[i][j] = tot
    return Mat(rows)


def short(f):
    if isinstance(f, Ext):
        return f.name.split(".")[-1]
    return getattr(f, "name", "") or ""


def clone(v):
    if isinstance(v, Mat):
        return v.copy()
    if isinstance(v, Obj):
        return Obj(v.cls, **{k: clone(x) for k, x in v.attrs.items()})
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v


def variants(prog, fi, args, kw=None, limit=32, **opts):
    """[(value, Eval)] of fi on the given arguments for every resolution of
    the tests that do not depend on the abstracted values; alternatives that
    raise are left out"""
    out = []
    plan = []
    while True:
        ev = Eval(prog, **opts)
        ev.plan = list(plan)
        try:
            v = ev.call_fi(fi, [clone(a) for a in args],
                           {k: clone(a) for k, a in (kw or {}).items()})
            out.append((v, ev))
        except Raises:
            pass
        plan = ev.plan[:ev.nchoice]
        while plan and plan[-1] is False:
            plan.pop()
        if not plan:
            return out
        plan[-1] = False
        if len(out) > limit:
            raise Unsupported("too many alternatives")
