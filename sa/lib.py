"""Helpers shared by the rules."""
import ast

from .effects import domain, param_hints
from .engine import (Engine, Frame, NONE, State, T, alternatives, const, cval,
                     is_const, show, strip, subterms)
from .model import AnalysisBroken, ClassInfo, Ext, FuncInfo, Module, ModVar


def hf_policy(prog, keep=("replace_dim",)):
    """Inline everything except the array classes' own methods."""
    HF = prog.cls("hftools.dataset.arrayobj:_hfarray")

    def inl(fi):
        if fi.cls is not None and fi.cls.subclass_of(HF) and \
                fi.name not in keep and fi.name not in fi.cls.setters:
            return False
        if fi.cls is not None and fi.cls.subclass_of(HF) and \
                fi.name == "__getitem__":
            return False
        return True
    return inl


def no_inline(*names):
    def inl(fi):
        return fi.fullname not in names and fi.name not in names
    return inl


def engine(prog, inline=None, depth=6, typed=True, maxevents=60000):
    dom, _ = domain(prog)
    kw = dom if typed else {}
    return Engine(prog, inline=inline, maxdepth=depth, maxevents=maxevents,
                  **kw)


def run(prog, fi, inline=None, depth=6, args=None, self_cls=None,
        param_types=None, typed=True, maxevents=60000):
    if isinstance(fi, str):
        fi = prog.func(fi)
    eng = engine(prog, inline, depth, typed, maxevents)
    _, hints = domain(prog)
    pt = param_hints(fi, hints)
    pt.update(param_types or {})
    res = eng.run(fi, args=args, self_cls=self_cls, param_types=pt)
    return eng, res


def call(prog, fi, args, kw=(), inline=None, depth=7, types=None, eng=None):
    """Call ``fi`` (through its decorators) on symbolic arguments."""
    eng = eng or engine(prog, inline, depth)
    if types:
        eng.types.update(types)
    fr = Frame(fi, ("top", fi.fullname), (), ())
    eng.frame = fr
    eng.frames[fr.fid] = fr
    st = State()
    t = eng.call_func(fi, list(args), list(kw), fi.node, st)
    return eng, t, st


def callee(t):
    """Printable name of what a call term / call event calls."""
    f = t.args[0] if isinstance(t, T) and t.op == "call" else t.obj \
        if not isinstance(t, T) else t
    return fname(f)


def fname(f):
    if not isinstance(f, T):
        return ""
    if f.op == "ent":
        e = f.args[0]
        return getattr(e, "fullname", None) or getattr(e, "name", "")
    if f.op == "attr":
        return "." + f.args[1]
    if f.op == "closure":
        return f.args[0].fullname
    if f.op == "bound":
        return f.args[1].fullname
    return ""


def short(f):
    n = fname(f)
    for c in (":", "."):
        n = n.split(c)[-1]
    return n


def deps(eng, t, control=True):
    return subterms(eng, t, control=control)


def params_in(terms):
    return {x.args[0] for x in terms if x.op == "param"}


def attrs_of(terms, base):
    return {x.args[1] for x in terms if x.op == "attr" and x.args[0] is base}


def kwarg(t_or_e, name, pos=None):
    if isinstance(t_or_e, T):
        args, kw = t_or_e.args[1], t_or_e.args[2]
    else:
        args, kw = t_or_e.args, t_or_e.kw
    for k, v in kw:
        if k == name:
            return v
    if pos is not None and pos < len(args) and \
            not any(a.op == "star" for a in args[:pos + 1]):
        return args[pos]
    return None


def guard_polar(guards, pred):
    """Polarity of the first guard satisfying pred, or None."""
    for c, p in guards:
        if pred(c):
            return p
    return None


def all_funcs(prog, *prefixes, skip=()):
    for f in prog.all_functions():
        if isinstance(f.node, ast.Lambda):
            continue
        if prefixes and not f.module.name.startswith(prefixes):
            continue
        if f.module.name.startswith(
                ("hftools._external",) + tuple(skip)):
            continue
        yield f


def is_array_ctor(f):
    if f.op == "ent" and isinstance(f.args[0], ClassInfo):
        return "numpy.ndarray" in f.args[0].ext_bases()
    return f.op == "attr" and f.args[1] == "__class__"


VIEWS = {"view", "transpose", "reshape", "ravel", "squeeze", "swapaxes",
         "diagonal", "reorder_dimensions", "add_dim", "copy", "astype",
         "__getitem__", "conj", "take", "repeat", "__array__", "flatten",
         "make_fullcomplex_array"}


def data_src(t, seen=()):
    """The values whose element data ``t`` carries (through views, casts,
    constructors and copies), as a set of terms."""
    if t in seen or len(seen) > 60:
        return frozenset()
    s = seen + (t,)
    if t.op == "phi":
        return data_src(t.args[1], s) | data_src(t.args[2], s)
    if t.op in ("and", "or"):
        return frozenset().union(*[data_src(x, s) for x in t.args])
    if t.op == "call":
        f, args = t.args[0], t.args[1]
        if is_array_ctor(f):
            a = kwarg(t, "data", 0)
            if a is not None:
                return data_src(a, s)
        if f.op == "attr" and f.args[1] in VIEWS:
            return data_src(f.args[0], s)
        if f.op == "ent" and isinstance(f.args[0], FuncInfo) and \
                f.args[0].name in VIEWS and args:
            return data_src(args[0], s)
        if f.op == "ent" and isinstance(f.args[0], Ext) and args:
            n = f.args[0].name
            if n.startswith("numpy.ndarray.") and n.split(".")[-1] in VIEWS:
                return data_src(args[0], s)
            if n in ("numpy.array", "numpy.asarray", "numpy.asanyarray",
                     "numpy.ascontiguousarray", "numpy.squeeze",
                     "numpy.transpose", "numpy.reshape", "numpy.copy",
                     "numpy.ravel", "numpy.swapaxes", "numpy.rollaxis",
                     "numpy.moveaxis", "numpy.expand_dims"):
                return data_src(args[0], s)
    if t.op == "attr" and t.args[1] in ("T", "t"):
        return data_src(t.args[0], s)
    if t.op == "sub" and t.args[1].op in ("slice", "tuple"):
        return data_src(t.args[0], s)
    return frozenset([t])


def loc(fi, node=None):
    return "%s:%d (%s)" % (fi.module.rel, getattr(node or fi.node, "lineno",
                                                  0), fi.qual)


# resolving conditionals under assumptions -----------------------------------

def decide(c, assume):
    """Truth of condition ``c`` under ``assume(cond) -> True/False/None``."""
    if is_const(c):
        return bool(cval(c))
    r = assume(c)
    if r is not None:
        return r
    if c.op == "not":
        r = decide(c.args[0], assume)
        return None if r is None else not r
    if c.op in ("and", "or"):
        rs = [decide(x, assume) for x in c.args]
        stop = c.op == "or"
        if any(r is stop for r in rs):
            return stop
        if all(r is (not stop) for r in rs):
            return not stop
        return None
    if c.op == "phi":
        p = decide(c.args[0], assume)
        if p is None:
            a, b = decide(c.args[1], assume), decide(c.args[2], assume)
            return a if a is b else None
        return decide(c.args[1] if p else c.args[2], assume)
    if c.op == "call" and fname(c.args[0]) == "builtins.bool" and c.args[1]:
        return decide(c.args[1][0], assume)
    return None


def resolve(t, assume, path=()):
    """Alternatives of ``t`` under ``assume`` as (term, undecided conds)."""
    if t.op == "phi":
        p = decide(t.args[0], assume)
        if p is not None:
            for x in resolve(t.args[1] if p else t.args[2], assume, path):
                yield x
            return
        for q in (True, False):
            c = t.args[0]
            if (c, not q) in path:
                continue
            for x in resolve(t.args[1] if q else t.args[2], assume,
                             path + ((c, q),)):
                yield x
        return
    if t.op in ("and", "or"):
        # value of a short-circuit expression
        for i, x in enumerate(t.args):
            last = i == len(t.args) - 1
            p = decide(x, assume)
            stop = t.op == "or"
            if last or p is stop:
                for y in resolve(x, assume, path):
                    yield y
                return
            if p is (not stop):
                continue
            for y in resolve(x, assume, path + ((x, stop),)):
                yield y
        return
    yield t, path


def none_assume(facts, isinst=None):
    """facts: {param name: True if None / False if not None};
    isinst: {param name: bool} answers isinstance tests on it."""
    isinst = isinst or {}

    def assume(c):
        if c.op == "cmp" and c.args[0] in ("Is", "Eq") and \
                any(is_const(x) and cval(x) is None for x in c.args[1:]):
            for x in c.args[1:]:
                if x.op == "param" and x.args[0] in facts:
                    return facts[x.args[0]]
        if c.op == "cmp" and c.args[0] in ("IsNot", "NotEq") and \
                any(is_const(x) and cval(x) is None for x in c.args[1:]):
            for x in c.args[1:]:
                if x.op == "param" and x.args[0] in facts:
                    return not facts[x.args[0]]
        if c.op == "param" and c.args[0] in facts:
            return False if facts[c.args[0]] else None
        if c.op == "isinstance" and c.args[0].op == "param" and \
                c.args[0].args[0] in isinst:
            return isinst[c.args[0].args[0]]
        return None
    return assume


def is_param(t, name=None):
    return t.op == "param" and (name is None or t.args[0] == name)


# -- must-pass analysis over a loop body ---------------------------------------

def leaks(body, hits):
    """Statements at which one pass over the loop body 'body' can end without
    having executed a node of 'hits' (a set of ast nodes).  Paths that raise
    or return do not count."""
    out = []

    def has(n):
        return any(x in hits for x in ast.walk(n))

    def block(stmts, states, where):
        """states: set of bool (hit already).  Returns fall-through states."""
        for s in stmts:
            if not states:
                return states
            states = stmt(s, states)
        return states

    def stmt(s, states):
        if isinstance(s, ast.If):
            if has(s.test):
                states = {True}
            return block(s.body, set(states), s) | \
                block(s.orelse, set(states), s)
        if isinstance(s, ast.Try):
            pre = set(states)
            n = block(s.body, set(states), s)
            n = block(s.orelse, n, s)
            for h in s.handlers:
                # the exception may come before or after a store in the body
                hs = pre | ({True} if any(has(x) for x in s.body[:-1])
                            else set())
                n = n | block(h.body, hs, h)
            if s.finalbody:
                n = block(s.finalbody, n, s)
            return n
        if isinstance(s, (ast.For, ast.While)):
            if has(s):
                return {True}
            return states
        if isinstance(s, ast.With):
            return block(s.body, states, s)
        if isinstance(s, ast.Continue):
            if False in states:
                out.append(s)
            return set()
        if isinstance(s, (ast.Return, ast.Raise, ast.Break)):
            return set()
        if has(s):
            return {True}
        return states
    end = block(body, {False}, None)
    if False in end:
        out.append(body[-1])
    return out


def loop_of(fnode, node):
    """innermost for/while of fnode that contains node"""
    best = None
    for n in ast.walk(fnode):
        if isinstance(n, (ast.For, ast.While)) and any(
                x is node for x in ast.walk(n)):
            if best is None or any(x is n for x in ast.walk(best)):
                best = n
    return best
