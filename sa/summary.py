"""Normal form of what a function does.

The events and the result of the value-flow analysis of one function, with
everything removed that depends on how it is written: local names, source
positions, order of independent statements, loops against comprehensions,
helpers that were split off.  Two functions with the same normal form do the
same; a normal form is a set of *effects* (results, stores, calls made for
their effect, raises, yields), each with the conditions under which it takes
place and the loops it takes place in.
"""
import ast

from .engine import NONE, T, const, cval, is_const, known
from .lib import engine
from .model import ClassInfo, Ext, FuncInfo, Module, ModVar


class N(object):
    """hash-consed node: op, label, kids"""
    __slots__ = ("op", "label", "kids", "size", "id")
    pool = {}

    def __new__(cls, op, label="", kids=()):
        key = (op, label, tuple(k.id for k in kids))
        n = cls.pool.get(key)
        if n is None:
            n = object.__new__(cls)
            n.op, n.label, n.kids = op, label, tuple(kids)
            n.size = 1 + sum(k.size for k in kids)
            n.id = len(cls.pool)
            cls.pool[key] = n
        return n

    def __repr__(self):
        return text(self)

    def __lt__(self, other):
        return key_of(self) < key_of(other)


_keys = {}


def key_of(n):
    k = _keys.get(n.id)
    if k is None:
        import hashlib
        k = hashlib.sha1(repr((n.op, n.label, [key_of(x) for x in n.kids]))
                         .encode()).hexdigest()
        _keys[n.id] = k
    return k


def text(n, d=0):
    if d > 7:
        return "..."
    k = [text(x, d + 1) for x in n.kids]
    o = n.op
    if o == "const":
        return n.label.split(":", 1)[1]
    if o == "param":
        return n.label
    if o == "ent":
        return n.label.split(":")[-1]
    if o == "attr":
        return "%s.%s" % (k[0], n.label)
    if o == "sub":
        return "%s[%s]" % (k[0], k[1])
    if o == "call":
        return "%s(%s)" % (k[0], ", ".join(k[1:]))
    if o == "kw":
        return "%s=%s" % (n.label, k[0])
    if o in ("bin", "cmp"):
        return "(%s %s %s)" % (k[0], n.label, k[1])
    if o == "phi":
        return "(%s if %s else %s)" % (k[1], k[0], k[2])
    if o == "tuple":
        return "(%s)" % ", ".join(k)
    return "%s%s(%s)" % (o, ":" + n.label if n.label else "", ", ".join(k))


class TooBig(Exception):
    pass


LIMIT = 60000


class Canon(object):
    def __init__(self, eng, fi):
        self.eng = eng
        self.fi = fi
        self.memo = {}
        self.count = 0
        self.params = {p: i for i, p in enumerate(fi.params)}

    def term(self, t, ctx=()):
        """ctx: loop terms / objects being expanded"""
        key = (t, ctx) if not isinstance(t, T) or t.op not in (
            "const", "param", "ent") else (t, ())
        r = self.memo.get(key)
        if r is None:
            self.count += 1
            if self.count > LIMIT or len(ctx) > 14:
                raise TooBig()
            r = self.memo[key] = self.build(t, ctx)
            if r.size > 10 ** 15:
                raise TooBig()
        return r

    def seq(self, xs, ctx):
        return [self.term(x, ctx) for x in xs]

    def iter_of(self, loopid, ctx):
        t = self.eng.loopiter.get(loopid)
        if t is None:
            return N("unk", "iter")
        if ("L", loopid) in ctx:
            return N("self", str(len(ctx) - ctx.index(("L", loopid))))
        return bare(self.term(t, ctx + (("L", loopid),)))

    def guards(self, gs, ctx=()):
        out = set()
        for c, p in gs:
            n = self.cond(c, ctx)
            if n.op == "unk":
                continue
            if n.op == "not":
                n, p = n.kids[0], not p
            if n.op == "unk" or n.op == "exc" and not p:
                continue
            out.add((n, p))
        return out

    def gnode(self, gs, ctx=()):
        gs = self.guards(gs, ctx)
        g = N("guards", "", sorted(N("guard", str(p), (n,)) for n, p in gs))
        if any(n.op in ("and", "or", "phi") for n, p in gs):
            try:
                g = cubes_node(blake(gcubes(g)))
            except TooBig:
                pass
        return g

    def cond(self, c, ctx=()):
        """condition: only its truth counts"""
        n = self.term(c, ctx)
        return truth(n)

    def build(self, t, ctx):
        if isinstance(t, tuple):
            if t and t[0] == "loop":
                return N("loopid", "", (self.iter_of(t, ctx),))
            return N("seq", "", [self.term(x, ctx) for x in t])
        if not isinstance(t, T):
            if isinstance(t, (FuncInfo, ClassInfo, Ext, Module, ModVar)):
                return ent(t)
            if isinstance(t, (str, int, float, bool, type(None))):
                return N("lit", repr(t))
            return N("unk", type(t).__name__)
        o, a = t.op, t.args
        if o == "const":
            return N("const", "%s:%r" % (a[0], a[1]))
        if o == "param":
            if a[1] == self.fi.fullname and a[0] in self.params:
                return N("param", a[0])
            return N("param", a[0])
        if o == "ent":
            return ent(a[0])
        if o == "closure":
            return self.closure(a[0], ctx)
        if o == "bound":
            return N("attr", a[1].name, (self.term(a[0], ctx),))
        if o == "loop":
            if t in ctx:
                return N("self", str(len(ctx) - ctx.index(t)))
            info = self.eng.loopinfo.get(a[0], {}).get(a[1])
            if info is None:
                return N("unk", "loop")
            c2 = ctx + (t,)
            init = self.term(info[0], ctx)
            ups = sorted(self.term(u, c2) for u in info[1])
            return N("loop", "", [init, self.iter_of(a[0], c2)] + ups)
        if o == "elem":
            return N("elem", "", (bare(self.term(a[0], ctx)),))
        if o in ("idx",):
            return N("idx", "", (self.iter_of(a[0], ctx),))
        if o == "key":
            return N("elem", "", (bare(self.term(a[0], ctx)),))
        if o == "obj":
            return self.obj(t, ctx)
        if o == "call":
            return self.call(t, ctx)
        if o == "phi":
            return self.phi(t, ctx)
        if o == "cmp":
            return self.cmp(a[0], self.term(a[1], ctx), self.term(a[2], ctx))
        if o in ("and", "or"):
            return N(o, "", sorted(set(self.seq(a, ctx))))
        if o == "not":
            n = truth(self.term(a[0], ctx))
            return n.kids[0] if n.op == "not" else N("not", "", (n,))
        if o in ("bin", "un"):
            return N(o, a[0], self.seq(a[1:], ctx))
        if o == "attr":
            return N("attr", a[1], (self.term(a[0], ctx),))
        if o == "nth":
            return N("nth", a[1], (self.term(a[0], ctx),))
        if o == "unk":
            return N("unk", str(a[0]) if a and isinstance(a[0], str) else "")
        if o in ("super", "exc", "handler", "raised"):
            return N(o)
        if o == "partial":
            return N("partial", "", [self.term(a[0], ctx)] +
                     self.seq(a[1], ctx) +
                     [N("kw", k, (self.term(v, ctx),)) for k, v in a[2]])
        kids, label = [], []
        for x in a:
            if isinstance(x, T):
                kids.append(self.term(x, ctx))
            elif isinstance(x, tuple) and x and x[0] == "loop":
                kids.append(self.term(x, ctx))
            elif isinstance(x, (FuncInfo, ClassInfo, Ext, Module, ModVar)):
                kids.append(ent(x))
            elif isinstance(x, str):
                label.append(x)
            elif isinstance(x, tuple) and all(isinstance(y, T) for y in x):
                kids.append(N("seq", "", self.seq(x, ctx)))
        return N(o, ",".join(label), kids)

    def cmp(self, op, a, b):
        if op in ("Eq", "Is") and b < a:
            a, b = b, a
        return N("cmp", op, (a, b))

    def phi(self, t, ctx):
        c = truth(self.term(t.args[0], ctx))
        a, b = self.term(t.args[1], ctx), self.term(t.args[2], ctx)
        return mkphi(c, a, b)

    def closure(self, fi, ctx):
        if any(x is fi for x in ctx):
            return N("fn", "rec")
        if len(ctx) > 8:
            return N("fn", "deep")
        try:
            e = engine(self.eng.prog, inline=lambda f: False, depth=1)
            e.pathjoin = True
            r = e.run(fi)
            s = Canon(e, fi)
            t = s.term(r.term, ctx + (fi,)) if r.term is not None else \
                N("bottom")
            evs = [x for x in effects(e, fi, s, ctx + (fi,))
                   if x.op != "ret"]
            # parameters by position
            return N("fn", "", [rename(t, fi.params)] +
                     sorted(rename(x, fi.params) for x in evs))
        except (RuntimeError, RecursionError):
            return N("fn", "unknown")

    def obj(self, t, ctx):
        if t in ctx:
            return N("self", str(len(ctx) - ctx.index(t)))
        kind = t.args[0]
        log = self.eng.contents_log.get(t, ())
        c2 = ctx + (t,)
        kids = []
        g0, l0 = self.eng.objbase.get(t, ((), ()))
        for (k, key, v, g, l) in log:
            base = "app" if k in ("lit", "app", "yield") else k
            g = tuple(x for x in g if x not in g0 and
                      x not in self.eng.passed)
            l = l[len(l0):] if l[:len(l0)] == l0 else l
            unset = (T("cmp", "In", key, t), False) if k == "set" and \
                isinstance(key, T) else None
            if (t, key, v) in self.eng.ifunset or unset in g:
                base = "ifunset"
                g = tuple(x for x in g if x != unset)
            parts = []
            if isinstance(key, T):
                parts.append(self.term(key, c2))
            if isinstance(v, T):
                parts.append(self.term(v, c2))
            parts.append(self.gnode(g, c2))
            parts.append(N("in", "", [self.iter_of(x, c2) for x in l]))
            kids.append(N("entry", base, parts))
        cls = t.args[2] if len(t.args) > 2 else None
        return N("new", "%s:%s" % (kind, getattr(cls, "fullname", "")), kids)

    def call(self, t, ctx):
        f, args, kw = t.args[0], t.args[1], t.args[2]
        fn = self.term(f, ctx)
        a = [N("star", "", (self.term(x.args[0], ctx),))
             if x.op == "star" else self.term(x, ctx) for x in args]
        k = [(n, self.term(v, ctx)) for n, v in kw]
        kids = unstripped(fn, bind(self.eng.prog, f, a, k))
        if fn.op == "attr" and fn.label in ("split", "strip") and not kids:
            fn = N("attr", fn.label, [unstrip(fn.kids[0])])
        r = N("call", "", [fn] + kids)
        # contents given to the result afterwards
        log = self.eng.contents_log.get(t)
        if log and t not in ctx:
            c2 = ctx + (t,)
            ents = []
            for (kk, key, v, g, l) in log:
                g = tuple(x for x in g if x not in self.eng.passed)
                parts = []
                if isinstance(key, T):
                    parts.append(self.term(key, c2))
                if isinstance(v, T):
                    parts.append(self.term(v, c2))
                parts.append(self.gnode(g, c2))
                parts.append(N("in", "", [self.iter_of(x, c2) for x in l]))
                ents.append(N("entry", kk, parts))
            r = N("filled", "", [r] + ents)
        return r


def unstrip(n):
    """a string without a call that only takes blanks off its ends"""
    while n.op == "call" and len(n.kids) == 1 and \
            n.kids[0].op == "attr" and \
            n.kids[0].label in ("strip", "lstrip", "rstrip"):
        n = n.kids[0].kids[0]
    return n


def unstripped(fn, kids):
    """float(" 1 ") and int(" 1 ") read past blanks on their own"""
    if len(kids) == 1 and fn.op == "ent" and \
            fn.label in ("Ext:builtins.float", "Ext:builtins.int"):
        return [unstrip(kids[0])]
    return kids


WRAP = ("Ext:builtins.list", "Ext:builtins.tuple", "Ext:builtins.iter",
        "Ext:builtins.enumerate")


def bare(n):
    """what a loop over n goes through, without wrappers that keep the order
    and number of the elements"""
    while True:
        if n.op == "call" and n.kids[0].op == "ent" and len(n.kids) == 2:
            f, a = n.kids[0].label, n.kids[1]
            if f in WRAP:
                n = a
                continue
            if f == "Ext:builtins.range" and a.op == "call" and \
                    a.kids[0].label == "Ext:builtins.len" and \
                    len(a.kids) == 2:
                n = a.kids[1]
                continue
            if a.op == "kw" and a.label == "self" and f.split(".")[-1] in (
                    "keys", "items", "values", "iteritems"):
                n = a.kids[0]
                continue
        if n.op == "call" and n.kids[0].op == "attr" and len(n.kids) == 1 \
                and n.kids[0].label in ("keys", "items", "values",
                                        "iteritems"):
            n = n.kids[0].kids[0]
            continue
        if n.op == "new" and len(n.kids) == 1 and \
                n.kids[0].label == "ext" and n.label.startswith("list") and \
                not n.kids[0].kids[1].kids and not n.kids[0].kids[2].kids:
            n = n.kids[0].kids[0]
            continue
        return n


def rename(n, params, memo=None):
    memo = {} if memo is None else memo
    if n.id in memo:
        return memo[n.id]
    if n.op == "param" and n.label in params:
        r = N("arg", str(params.index(n.label)))
    else:
        r = N(n.op, n.label, [rename(k, params, memo) for k in n.kids])
    memo[n.id] = r
    return r


def ent(e):
    n = getattr(e, "fullname", None) or getattr(e, "name", None) or "?"
    k = type(e).__name__
    return N("ent", "%s:%s" % (k, n))


def bind(prog, f, args, kw):
    """arguments by parameter name, defaults left out"""
    e = f.args[0] if f.op == "ent" else None
    fi, off = None, 0
    if isinstance(e, FuncInfo):
        fi = e
        if e.cls is not None and any(isinstance(d, ast.Name) and
                                     d.id == "classmethod"
                                     for d in e.decorators):
            off = 0
    elif isinstance(e, ClassInfo):
        i = e.find("__new__") or e.find("__init__")
        if isinstance(i, FuncInfo):
            fi, off = i, 1
    if fi is not None and not any(a.op == "star" for a in args) and \
            not any(k == "**" for k, v in kw):
        pos = fi.positional[off:]
        if len(args) <= len(pos):
            m = dict(zip(pos, args))
            m.update(dict(kw))
            d = fi.defaults
            out = []
            for p in sorted(m):
                dn = d.get(p) if isinstance(d, dict) else None
                if isinstance(dn, ast.Constant) and \
                        m[p] is N("const", "%s:%r" % (
                            type(dn.value).__name__, dn.value)):
                    continue
                out.append(N("kw", p, (m[p],)))
            return out
    return list(args) + [N("kw", k, (v,)) for k, v in sorted(
        kw, key=lambda x: x[0])]


def truth(n):
    """node standing for the truth value of n"""
    if n.op == "call" and n.kids[0].op == "ent" and \
            n.kids[0].label == "Ext:builtins.bool" and len(n.kids) == 2:
        return truth(n.kids[1])
    if n.op == "not":
        k = truth(n.kids[0])
        return k.kids[0] if k.op == "not" else N("not", "", (k,))
    if n.op in ("and", "or"):
        return N(n.op, "", sorted({truth(k) for k in n.kids}))
    return n


def mkphi(c, a, b):
    if a is b:
        return a
    if c.op == "not":
        return mkphi(c.kids[0], b, a)
    if c.op == "and":
        r = b
        out = a
        for k in reversed(c.kids):
            out = mkphi(k, out, r)
        return out
    if c.op == "or":
        out = b
        for k in reversed(c.kids):
            out = mkphi(k, a, out)
        return out
    return N("phi", "", (c, a, b))


# -- conditions as Boolean functions -------------------------------------------

def literal(n, p=True):
    """(atom, polarity): a <= b is taken as not b < a"""
    while n.op == "not":
        n, p = n.kids[0], not p
    if n.op == "cmp" and n.label == "LtE":
        return N("cmp", "Lt", (n.kids[1], n.kids[0])), not p
    return n, p


def cubes_of(n, p=True, cap=64):
    """disjunctive form of n == p: set of frozensets of literals"""
    n, p = literal(n, p)
    if n.op in ("and", "or"):
        parts = [cubes_of(k, p, cap) for k in n.kids]
        if (n.op == "and") == p:
            return product(parts, cap)
        out = set()
        for q in parts:
            out |= q
        if len(out) > cap:
            raise TooBig()
        return out
    if n.op == "const":
        v = n.label.split(":", 1)[1] not in ("False", "None", "0", "''",
                                              "0.0")
        return {frozenset()} if v == p else set()
    if n.op == "phi":
        c, a, b = n.kids
        return product([cubes_of(c, True, cap), cubes_of(a, p, cap)], cap) \
            | product([cubes_of(c, False, cap), cubes_of(b, p, cap)], cap)
    return {frozenset([(n, p)])}


def product(parts, cap=64):
    cur = {frozenset()}
    for q in parts:
        nxt = set()
        for x in cur:
            for y in q:
                z = x | y
                if not any((a, not b) in z for a, b in z):
                    nxt.add(z)
        if len(nxt) > cap:
            raise TooBig()
        cur = nxt
    return cur


def absorb(cs):
    return {c for c in cs if not any(d < c for d in cs)}


def blake(cs, cap=200):
    """all prime implicants"""
    cs = absorb(set(cs))
    while True:
        new = set()
        l = list(cs)
        for i, x in enumerate(l):
            for y in l[i + 1:]:
                op = [(a, p) for a, p in x if (a, not p) in y]
                if len(op) != 1:
                    continue
                a, p = op[0]
                z = (x - {(a, p)}) | (y - {(a, not p)})
                if not any(d <= z for d in cs):
                    new.add(z)
        if not new:
            return frozenset(cs)
        cs = absorb(cs | new)
        if len(cs) > cap:
            raise TooBig()


def gcubes(g):
    """disjunctive form of a guards node"""
    if g.op == "anyof":
        out = set()
        for k in g.kids:
            out |= gcubes(k)
        return out
    return product([cubes_of(x.kids[0], x.label == "True") for x in g.kids])


def cube_node(c):
    return N("guards", "", sorted(N("guard", str(p), (n,)) for n, p in c))


def under(n, gs, memo=None):
    """n, given that the literals gs hold"""
    memo = {} if memo is None else memo
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.op == "fn":
        r = n
    elif n.op == "phi":
        c, p = literal(n.kids[0])
        if (c, p) in gs:
            r = under(n.kids[1], gs, memo)
        elif (c, not p) in gs:
            r = under(n.kids[2], gs, memo)
        else:
            r = N("phi", "", [under(k, gs, memo) for k in n.kids])
    elif n.op == "new":
        ks = []
        for e in n.kids:
            g = e.kids[-2]
            if g.op == "guards":
                lits = [literal(x.kids[0], x.label == "True")
                        for x in g.kids]
                if any((a, not p) in gs for a, p in lits):
                    continue
                g = N("guards", "", [
                    under(x, gs, memo) for x, l in zip(g.kids, lits)
                    if l not in gs])
            ks.append(N(e.op, e.label, [under(k, gs, memo)
                                        for k in e.kids[:-2]] +
                        [g, under(e.kids[-1], gs, memo)]))
        r = N(n.op, n.label, ks)
    else:
        r = N(n.op, n.label, [under(k, gs, memo) for k in n.kids])
    memo[n.id] = r
    return r


def context(e):
    """an effect with what its own condition says used inside it"""
    g = e.kids[1]
    if g.op != "guards" or not g.kids:
        return e
    lits = frozenset(literal(x.kids[0], x.label == "True") for x in g.kids)
    if not needs(e.kids[0]):
        return e
    r = N("effect", "", (under(e.kids[0], lits), g, e.kids[2]))
    if e.id in e_nodes:
        e_nodes.setdefault(r.id, e_nodes[e.id])
    return r


def needs(n, seen=None):
    seen = set() if seen is None else seen
    if n.id in seen:
        return False
    seen.add(n.id)
    if n.op == "phi" or n.op == "new" and any(
            k.kids[-2].kids for k in n.kids):
        return True
    return any(needs(k, seen) for k in n.kids)


def distribute(e):
    """one effect per alternative of the value that is stored"""
    n = e.kids[0]
    if n.op not in ("setitem", "setattr", "yield") or not n.kids or \
            n.kids[-1].op != "phi" or e.kids[1].op != "guards":
        return [e]
    try:
        cs = result_cases(None, n.kids[-1], limit=8)
    except TooBig:
        return [e]
    out = []
    for gs, v in cs:
        lits = {(x.kids[0], x.label == "True") for x in e.kids[1].kids}
        if any((a, not p) in lits for a, p in gs):
            continue
        lits |= {(a, p) for a, p in gs
                 if a.op != "unk" and not (a.op == "exc" and not p)}
        try:
            g = cubes_node(blake(gcubes(N("guards", "", [
                N("guard", str(p), (a,)) for a, p in lits]))))
        except TooBig:
            return [e]
        r = N("effect", "", (N(n.op, n.label, n.kids[:-1] + (v,)), g,
                             e.kids[2]))
        if e.id in e_nodes:
            e_nodes.setdefault(r.id, e_nodes[e.id])
        out.append(r)
    return out


def cubes_node(cs):
    if frozenset() in cs:
        return N("guards")
    if len(cs) == 1:
        return cube_node(list(cs)[0])
    return N("anyof", "", sorted(cube_node(c) for c in cs))


def merged(out):
    """effects that differ in their condition only: one with the union"""
    by = {}
    for e in out:
        by.setdefault((e.kids[0], e.kids[2]), []).append(e)
    res = []
    for (n, l), es in by.items():
        gs = {e.kids[1] for e in es}
        g = es[0].kids[1]
        if len(gs) > 1:
            try:
                cs = set()
                for x in gs:
                    cs |= gcubes(x)
                g = cubes_node(blake(cs))
            except TooBig:
                g = N("anyof", "", sorted(gs))
        r = N("effect", "", (n, g, l))
        for e in es:
            if e.id in e_nodes:
                e_nodes.setdefault(r.id, e_nodes[e.id])
        res.append(r)
    return res


def equivalent(a, b):
    """two guards are the same Boolean function of their atoms"""
    try:
        return blake(gcubes(a)) == blake(gcubes(b))
    except TooBig:
        return False


def ordered(n, depth=0):
    """nested alternatives with their conditions in a fixed order; None
    when there are too many"""
    atoms = set()
    seen = set()

    def cond_atoms(c):
        c, p = literal(c)
        if c.op in ("and", "or"):
            for k in c.kids:
                cond_atoms(k)
        elif c.op == "phi":
            for k in c.kids:
                cond_atoms(k)
        elif c.op != "const":
            atoms.add(c)

    def go(x):
        if x.op != "phi" or x.id in seen:
            return
        seen.add(x.id)
        cond_atoms(x.kids[0])
        go(x.kids[1])
        go(x.kids[2])
    go(n)
    if not 0 < len(atoms) <= 7:
        return None
    order = sorted(atoms)

    def ev(c, m):
        c, p = literal(c)
        if c.op == "and":
            r = all(ev(k, m) for k in c.kids)
        elif c.op == "or":
            r = any(ev(k, m) for k in c.kids)
        elif c.op == "phi":
            r = ev(c.kids[1] if ev(c.kids[0], m) else c.kids[2], m)
        elif c.op == "const":
            r = c.label.split(":", 1)[1] not in ("False", "None", "0", "''",
                                                  "0.0")
        else:
            r = m[c]
        return r == p

    def leaf(m):
        x = n
        while x.op == "phi":
            x = x.kids[1] if ev(x.kids[0], m) else x.kids[2]
        return x

    def mk(i, m):
        if i == len(order):
            return leaf(m)
        a = mk(i + 1, {**m, order[i]: True})
        b = mk(i + 1, {**m, order[i]: False})
        return a if a is b else N("phi", "", (order[i], a, b))
    return mk(0, {})


QUIET = ("builtins.print", "warnings.warn", "hftools.py3compat:print",
         "sys.stdout.write", "sys.stdout.flush",
         # made, but not used
         "numpy.result_type", "numpy.dtype", "numpy.ndim", "numpy.shape",
         "numpy.empty_like", "numpy.zeros_like", "numpy.ones_like",
         "numpy.iscomplexobj", "numpy.isrealobj",
         "builtins.isinstance", "builtins.len", "builtins.type",
         "builtins.id", "builtins.callable")


def effects(eng, fi, cn, ctx=()):
    """effect nodes of the function"""
    evs = [e for e in eng.events]
    used = set()
    todo = []
    for e in evs:
        if e.kind == "call":
            todo.extend(e.args)
            todo.extend(v for k, v in e.kw)
            todo.append(e.obj)
        else:
            if e.kind == "return" and e.stack and e.stack[-1] is not fi:
                continue
            todo.extend(x for x in (e.obj, e.val) if isinstance(x, T))
            todo.extend(x for x in e.args if isinstance(x, T))
        todo.extend(c for c, p in e.guards)
    for l in eng.loopiter.values():
        todo.append(l)
    for d in eng.loopinfo.values():
        for i0, ups in d.values():
            todo.append(i0)
            todo.extend(ups)
    for o, log in eng.contents_log.items():
        for (k, key, v, g, l) in log:
            todo.extend(x for x in (key, v) if isinstance(x, T))
            todo.extend(c for c, p in g)
    seen = set()
    while todo:
        t = todo.pop()
        if isinstance(t, T):
            if t in seen:
                continue
            seen.add(t)
            if t.op == "call":
                used.add(t)
            todo.extend(t.args)
        elif isinstance(t, tuple):
            todo.extend(t)
    # conditions that only say that no error was raised
    passed = eng.passed
    out = []
    for e in evs:
        gs = tuple(g for g in e.guards if g not in passed) \
            if e.kind != "raise" else e.guards[:0] + tuple(
                g for i, g in enumerate(e.guards)
                if g not in passed or i == len(e.guards) - 1)
        n = None
        if e.kind == "call":
            # the event of a call whose value is used is in the value
            if e.res in used and not is_effect(e):
                continue
            f = cn.term(e.obj, ctx)
            if f.op == "ent" and f.label.split(":", 1)[1] in QUIET:
                continue
            if "print" in f.label or "stdout" in text(f):
                continue
            n = N("do", "", [cn.term(e.res, ctx)])
        elif e.kind in ("store_attr", "set_prop"):
            n = N("setattr", str(e.name), [cn.term(e.obj, ctx),
                                           cn.term(e.val, ctx)])
        elif e.kind == "store_sub":
            if e.obj.op == "obj" and e.obj.args[0] in ("list", "dict",
                                                      "set"):
                continue
            n = N("setitem", "", [cn.term(e.obj, ctx),
                                  cn.term(e.args[0], ctx),
                                  cn.term(e.val, ctx)])
        elif e.kind == "del_attr":
            n = N("delattr", str(e.name), [cn.term(e.obj, ctx)])
        elif e.kind == "del_sub":
            if e.obj.op == "obj":
                continue
            n = N("delitem", "", [cn.term(e.obj, ctx),
                                  cn.term(e.val, ctx)])
        elif e.kind == "raise":
            n = N("raise", exc_name(e.val))
        elif e.kind == "yield":
            if e.stack and e.stack[-1] is not fi and known(e.stack[-1]):
                continue
            n = N("yield", "", [cn.term(e.val, ctx)]
                  if isinstance(e.val, T) else [])
        elif e.kind == "break":
            n = N("break")
        elif e.kind == "return":
            # a return that ends a loop
            if not e.loops or not e.stack or \
                    e.stack[-1] is not fi and (
                        known(e.stack[-1]) or
                        not leaves_loop(e.stack[-1].node)):
                continue
            n = N("loopret", "", [cn.term(e.val, ctx)]
                  if isinstance(e.val, T) else [])
        elif e.kind == "assert":
            n = N("assert", "", [cn.cond(e.val, ctx)])
        if n is None:
            continue
        loops = N("in", "", [cn.iter_of(x, ctx) for x in e.loops])
        out.append(N("effect", "", [n, cn.gnode(gs, ctx), loops]))
        e_nodes.setdefault(out[-1].id, e.loc)
    return out


def leaves_loop(node):
    return any(isinstance(x, ast.Return) for l in ast.walk(node)
               if isinstance(l, (ast.For, ast.While)) for x in ast.walk(l))


e_nodes = {}


def is_effect(e):
    """a call that changes its receiver although its value is used"""
    f = e.obj
    return f.op == "attr" and f.args[1] in (
        "pop", "popitem", "setdefault", "append", "extend", "insert",
        "remove", "sort", "reverse", "update", "clear", "write")


def exc_name(v):
    if v is None:
        return "again"
    while isinstance(v, T) and v.op == "call":
        v = v.args[0]
    if isinstance(v, T) and v.op == "obj" and len(v.args) > 2 and v.args[2]:
        return v.args[2].fullname
    if isinstance(v, T) and v.op == "ent":
        return getattr(v.args[0], "fullname", None) or \
            getattr(v.args[0], "name", "?")
    return "?"


def result_cases(cn, term, passed=(), limit=48):
    """(guards, value) of the result"""
    out = []

    def go(n, gs):
        if len(out) > limit:
            raise TooBig()
        if n.op == "phi":
            c = n.kids[0]
            for pol, k in ((True, n.kids[1]), (False, n.kids[2])):
                if (c, not pol) in gs:
                    continue
                go(k, gs | {(c, pol)})
            return
        out.append((frozenset(gs), n))
    go(term, frozenset())
    return out


def summarise(prog, fi):
    """list of effect nodes, or None"""
    try:
        eng = engine(prog, inline=lambda f: False, depth=1, maxevents=4000)
        eng.pathjoin = True
        res = eng.run(fi)
        cn = Canon(eng, fi)
        out = effects(eng, fi, cn)
        empty = N("in", "", ())
        if res.term is not None and not fi.is_generator():
            t = cn.term(res.term)
            passed = cn.guards(eng.passed)
            for gs, v in result_cases(cn, t):
                g = N("guards", "", sorted(
                    N("guard", str(p), (n,)) for n, p in gs
                    if (n, p) not in passed and n.op != "unk" and
                    not (n.op == "exc" and not p)))
                out.append(N("effect", "", [N("ret", "", (v,)), g, empty]))
        for d in fi.decorators:
            f = d.func if isinstance(d, ast.Call) else d
            if isinstance(f, ast.Name) and f.id not in (
                    "property", "classmethod", "staticmethod"):
                out.append(N("effect", "", [
                    N("decorated", f.id, [N("const", "str:%r" % ast.unparse(
                        a)) for a in getattr(d, "args", ())]),
                    N("guards"), empty]))
        for p, d in sorted(fi.defaults.items()):
            v = literal_value(fi.module, d)
            if v is not None:
                out.append(N("effect", "", [
                    N("default", p, (N("const", "%s:%r" % (
                        type(v[0]).__name__, v[0])),)),
                    N("guards"), empty]))
        out = merged([x for e in out for x in distribute(context(e))])
        return sorted(set(out)), [x for x in out if x.kids[0].op == "yield"]
    except (TooBig, RecursionError, RuntimeError):
        return None


# -- tables --------------------------------------------------------------------

class NotLiteral(Exception):
    pass


def evaluate(mod, n, depth=0):
    """value of a constant expression; raises NotLiteral"""
    if depth > 30:
        raise NotLiteral()
    ev = lambda x: evaluate(mod, x, depth + 1)
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Tuple):
        return tuple(ev(e) for e in n.elts)
    if isinstance(n, ast.List):
        return [ev(e) for e in n.elts]
    if isinstance(n, ast.Set):
        return frozenset(ev(e) for e in n.elts)
    if isinstance(n, ast.Dict):
        if any(k is None for k in n.keys):
            raise NotLiteral()
        return {ev(k): ev(v) for k, v in zip(n.keys, n.values)}
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
        v = ev(n.operand)
        return -v if isinstance(n.op, ast.USub) else not v
    if isinstance(n, ast.BinOp):
        a, b = ev(n.left), ev(n.right)
        try:
            o = type(n.op).__name__
            if o == "Add":
                return a + b
            if o == "Sub":
                return a - b
            if o == "Mult":
                return a * b
            if o == "Div":
                return a / b
            if o == "Pow" and abs(b) < 400:
                return a ** b
            if o == "Mod" and isinstance(a, str):
                return a % b
        except (TypeError, ValueError, ZeroDivisionError, OverflowError):
            pass
        raise NotLiteral()
    if isinstance(n, ast.Name):
        v = single_assignment(mod, n.id)
        if v is None:
            raise NotLiteral()
        return ev(v)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        f = n.func.id
        if f == "dict" and all(k.arg for k in n.keywords) and \
                len(n.args) <= 1:
            d = {}
            for a in n.args:
                v = ev(a)
                try:
                    d.update(v)
                except (TypeError, ValueError):
                    raise NotLiteral()
            for k in n.keywords:
                d[k.arg] = ev(k.value)
            return d
        if f in ("set", "frozenset", "list", "tuple", "sorted") and \
                len(n.args) <= 1 and not n.keywords:
            v = ev(n.args[0]) if n.args else ()
            try:
                return {"set": frozenset, "frozenset": frozenset,
                        "list": list, "tuple": tuple,
                        "sorted": sorted}[f](v)
            except TypeError:
                raise NotLiteral()
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            isinstance(n.func.value, ast.Name) and n.func.value.id == "re" \
            and n.func.attr == "compile" and n.args:
        v = ev(n.args[0])
        fl = sorted(ast.unparse(a) for a in n.args[1:]) + sorted(
            ast.unparse(k.value) for k in n.keywords)
        return ("re.compile", v, tuple(fl))
    raise NotLiteral()


def literal_value(mod, n):
    """(value,) or None"""
    try:
        return (evaluate(mod, n),)
    except (NotLiteral, TypeError, RecursionError):
        return None


def assignments(body):
    out = {}
    todo = list(body)
    while todo:
        s = todo.pop(0)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List))
                          else [t]):
                    if isinstance(x, ast.Name):
                        out.setdefault(x.id, []).append(
                            s.value if x is t else None)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out.setdefault(s.target.id, []).append(s.value)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            out.setdefault(s.target.id, []).append(None)
        elif isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
            for f in ("body", "orelse", "finalbody"):
                for x in getattr(s, f, []):
                    todo.append(x)
            for h in getattr(s, "handlers", []):
                todo.extend(h.body)
            # under a condition: not a plain table
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.setdefault(x.id, []).append(None)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.setdefault(s.name, []).append(None)
    return out


_assigned = {}


def single_assignment(mod, name):
    a = _assigned.get(mod)
    if a is None:
        a = _assigned[mod] = assignments(mod.tree.body)
    v = a.get(name, ())
    return v[0] if len(v) == 1 else None


def pattern(p):
    """a regular expression, however it is written"""
    import re
    import warnings
    try:
        from re import _parser as sre
    except ImportError:
        import sre_parse as sre
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = sre.parse(p)
    except (re.error, TypeError, RecursionError):
        return repr(p)

    def show(x):
        if isinstance(x, sre.SubPattern):
            return "[%s]" % ",".join(show(y) for y in x)
        if isinstance(x, (list, tuple)):
            n = str(x[0]) if x else ""
            if n == "SUBPATTERN" and len(x) == 2:
                # the number of a group counts, not its flags
                return "(G%s %s)" % (x[1][0], show(x[1][-1]))
            if n == "IN" and len(x) == 2:
                return "IN{%s}" % ",".join(sorted(cls(y) for y in x[1]))
            if n in ("LITERAL", "NOT_LITERAL", "CATEGORY", "RANGE"):
                return "IN{%s}" % cls(x)
            return "(%s)" % " ".join(show(y) for y in x)
        return str(x)

    def cls(y):
        if str(y[0]) == "CATEGORY" and str(y[1]) == "CATEGORY_DIGIT":
            return "RANGE(48, 57)"
        return "%s%s" % (y[0], y[1])
    return show(t)


def freeze(v):
    if isinstance(v, dict):
        return N("table", "dict", [N("row", "", (freeze(k), freeze(v[k])))
                                   for k in sorted(v, key=repr)])
    if isinstance(v, tuple) and v[:1] == ("re.compile",) and len(v) == 3:
        return N("table", "regex", [N("const", "re:" + pattern(v[1])),
                                    freeze(v[2])])
    if isinstance(v, (list, tuple)):
        return N("table", "seq", [freeze(x) for x in v])
    if isinstance(v, frozenset):
        return N("table", "set", [freeze(x) for x in sorted(v, key=repr)])
    return N("const", "%s:%r" % (type(v).__name__, v))


def module_tables(prog):
    """{module.NAME or module.Class.NAME: node} of constant tables"""
    out = {}
    for mod in prog.modules.values():
        for name in assignments(mod.tree.body):
            n = single_assignment(mod, name)
            v = literal_value(mod, n) if n is not None else None
            if v is not None and not name.startswith("__"):
                out["%s.%s" % (mod.name, name)] = freeze(v[0])
        for c in mod.tree.body:
            if not isinstance(c, ast.ClassDef):
                continue
            for name, vs in assignments(c.body).items():
                if len(vs) != 1 or vs[0] is None:
                    continue
                v = literal_value(mod, vs[0])
                if v is not None:
                    out["%s.%s.%s" % (mod.name, c.name, name)] = \
                        freeze(v[0])
    return out


def key(fi):
    """name of a function in the specification"""
    for d in fi.decorators:
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
            return "%s.%s" % (fi.fullname, d.attr)
    return fi.fullname
