"""Normal form of scalar/elementwise rational expressions.

Rational functions over named atoms: a polynomial is a dict
{monomial: coefficient}, a monomial a sorted tuple of (atom, power).  Two
expressions are equal iff their cross products are the same polynomial.
Nothing is evaluated numerically."""
from fractions import Fraction


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def m_mul(a, b):
    d = dict(a)
    for x, n in b:
        d[x] = d.get(x, 0) + n
    return tuple(sorted(((x, n) for x, n in d.items() if n), key=repr))


def reduce_mono(m, c):
    """i**2 = -1, sqrt(x)**2 = x."""
    out = ()
    for x, n in m:
        if x == "I" and n >= 2:
            c = c * (-1) ** (n // 2)
            n = n % 2
            if n:
                out = m_mul(out, ((x, 1),))
        elif isinstance(x, tuple) and x[0] == "sqrt" and n >= 2 and \
                isinstance(x[1], str):
            out = m_mul(out, ((x[1], n // 2),))
            if n % 2:
                out = m_mul(out, ((x, 1),))
        else:
            out = m_mul(out, ((x, n),))
    return out, c


def p_mul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, c = reduce_mono(m_mul(m1, m2), c1 * c2)
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


class RF(object):
    def __init__(self, num, den=None):
        self.num = num
        self.den = den if den is not None else p_const(1)

    @classmethod
    def const(cls, c):
        return cls(p_const(c))

    @classmethod
    def atom(cls, a):
        return cls({((a, 1),): Fraction(1)})

    def __add__(self, o):
        if self.den == o.den:
            return RF(p_add(self.num, o.num), self.den)
        return RF(p_add(p_mul(self.num, o.den), p_mul(o.num, self.den)),
                  p_mul(self.den, o.den))

    def __sub__(self, o):
        return self + (-o)

    def __neg__(self):
        return RF({m: -c for m, c in self.num.items()}, self.den)

    def __mul__(self, o):
        return RF(p_mul(self.num, o.num), p_mul(self.den, o.den))

    def __truediv__(self, o):
        if not o.num:
            raise ZeroDivisionError
        return RF(p_mul(self.num, o.den), p_mul(self.den, o.num))

    def __pow__(self, n):
        out = RF.const(1)
        b = self if n >= 0 else RF.const(1) / self
        for _ in range(abs(n)):
            out = out * b
        return out

    def __eq__(self, o):
        return p_mul(self.num, o.den) == p_mul(o.num, self.den)

    def __ne__(self, o):
        return not self == o

    def key(self):
        """Hashable canonical key when the denominator is a monomial."""
        if len(self.den) == 1:
            (m, c), = self.den.items()
            inv = tuple((x, -n) for x, n in m)
            return tuple(sorted(((m_mul(k, inv), v / c)
                                 for k, v in self.num.items()), key=repr))
        return ("frac", tuple(sorted(self.num.items(), key=repr)),
                tuple(sorted(self.den.items(), key=repr)))

    def atoms(self):
        return {x for p in (self.num, self.den) for m in p for x, _ in m}

    def __repr__(self):
        def f(p):
            return " + ".join("%s%s" % (
                "" if c == 1 and m else "%s " % c,
                "*".join("%s%s" % (x if isinstance(x, str) else
                                   "/".join(map(str, x)),
                                   "" if n == 1 else "^%d" % n)
                         for x, n in m)) for m, c in sorted(
                             p.items(), key=repr)) or "0"
        if self.den == p_const(1):
            return f(self.num)
        return "(%s)/(%s)" % (f(self.num), f(self.den))
