"""Units and output formats travel with the data."""
import ast

from ..axes import meth
from ..engine import T, alternatives, cval, is_const, show
from ..lib import (all_funcs, deps, fname, hf_policy, is_array_ctor, is_param,
                   kwarg, loc, none_assume, resolve, run, short)
from ..model import AnalysisBroken, Ext, FuncInfo
from .c02 import A, H, pol

RULE = (
    "Attribute-provenance: for every operation that must keep the unit "
    "(view, copy, reordering, transposing, taking, squeezing, indexing, "
    "adding an axis, sum, mean, std, min, max, cumsum, filtering, "
    "interpolating, collapsing repetitions) and, for those that keep the "
    "element type, the output format, the array returned on every path "
    "carries the attribute of the source: inherited through numpy's "
    "subclass protocol, passed to the constructor, or stored afterwards; "
    "a path through a plain ndarray or a constructor with another value is "
    "a violation.  The constructors let an explicit argument win over the "
    "data's attribute, which wins over the default.")
MIN = 20
KEEPNP = {"view", "transpose", "reshape", "ravel", "squeeze", "swapaxes",
          "diagonal", "copy", "astype", "__getitem__", "conj", "conjugate",
          "take", "repeat", "flatten", "round", "cumsum", "cumprod", "sum",
          "mean", "min", "max", "std", "var", "prod", "clip", "compress"}
OWN = {"view", "transpose", "reorder_dimensions", "take", "squeeze", "copy",
       "add_dim", "__getitem__", "sum", "mean", "std", "min", "max",
       "cumsum", "repeat", "astype", "reshape", "round", "conj"}
LOSE = {"asarray", "array", "ascontiguousarray", "asfortranarray", "zeros",
        "ones", "empty", "stack", "concatenate", "vstack", "hstack"}


def unk(t):
    return ("?", t)


def carried(eng, t, attr, n=0):
    """{(kind, term)}: 'from' X -- the attribute of X; 'value' v -- that
    value; 'none' -- plain data without it; '?' unknown."""
    if n > 40:
        return {unk(t)}
    if t.op == "phi":
        a = carried(eng, t.args[1], attr, n + 1)
        return a | carried(eng, t.args[2], attr, n + 1)
    st = [e for e in eng.events if e.kind in ("store_attr", "set_prop") and
          e.name == attr and e.obj is t]
    if st:
        # the last store wins when it is not conditional on something else
        e = st[-1]
        own = [g for g in e.guards if not hasattr_guard(g)]
        base = [g for g in creation(eng, t) if not hasattr_guard(g)]
        if all(g in base for g in own):
            return value(eng, e.val, attr, n + 1)
        return value(eng, e.val, attr, n + 1) | inherit(eng, t, attr, n)
    return inherit(eng, t, attr, n)


def hasattr_guard(g):
    c = g[0]
    return c.op == "call" and fname(c.args[0]) == "builtins.hasattr" and g[1]


def creation(eng, t):
    for e in eng.events:
        if e.res is t:
            return e.guards
    return eng.events[-1].guards if False else ()


def value(eng, v, attr, n):
    out = set()
    for x in alternatives(v):
        if x.op == "attr" and x.args[1] in (attr, "_" + attr):
            out |= {("from", y) for y in alternatives(x.args[0])}
        elif x.op == "call" and fname(x.args[0]) == "builtins.getattr" and \
                len(x.args[1]) > 1 and is_const(x.args[1][1]) and \
                cval(x.args[1][1]) == attr:
            out.add(("from", x.args[1][0]))
        elif is_const(x):
            out.add(("value", x))
        elif x.op == "param":
            out.add(("value", x))
        else:
            out.add(unk(x))
    return out


def inherit(eng, t, attr, n):
    if t.op == "param":
        return {("from", t)}
    if t.op == "elem" or t.op == "sub" and t.args[1].op not in (
            "slice", "tuple", "param", "elem", "obj", "const", "call",
            "phi", "bin"):
        return {("from", t)}
    if t.op == "sub" and is_param(t.args[0], "self") and \
            getattr(eng, "block", False):
        return {("from", t)}       # a variable of the data block
    if t.op == "sub":
        return carried(eng, t.args[0], attr, n + 1)
    if t.op == "attr" and t.args[1] in ("T", "t", "real", "imag"):
        return carried(eng, t.args[0], attr, n + 1)
    if t.op == "bin":
        return {unk(t)}
    if t.op == "call":
        f, args = t.args[0], t.args[1]
        if is_array_ctor(f):
            v = kwarg(t, attr)
            d = kwarg(t, "data", 0)
            base = carried(eng, d, attr, n + 1) if d is not None else \
                {unk(t)}
            if v is None:
                if any(k is None for k, _ in t.args[2]):
                    return {unk(t)}
                return base
            out = set()
            for k, x in value(eng, v, attr, n):
                if k == "value" and is_const(x) and cval(x) is None:
                    out |= base
                else:
                    out.add((k, x))
            return out
        m = meth(t)
        if m is not None:
            name, recv = m[0], m[1]
            ext = fname(f).startswith("numpy.")
            if name in LOSE and f.op == "ent" and \
                    isinstance(f.args[0], Ext):
                sub = kwarg(t, "subok")
                if sub is not None:
                    return {unk(t)}
                return {("none", t)}
            if name == "view":
                ty = dict(m[3]).get("type", m[2][0] if len(m[2]) == 1 and
                                    m[2][0].op == "ent" else None)
                if ty is not None:
                    if fname(ty) == "numpy.ndarray":
                        return {("none", t)}
                    return {unk(t)}
            if name in OWN or ext and name in KEEPNP:
                return carried(eng, recv, attr, n + 1)
            if name in ("asanyarray",):
                return carried(eng, recv, attr, n + 1)
    if t.op == "obj" and t.args[0] != "inst":
        return {("none", t)}
    if t.op == "attr":
        return {("from", t)}
    return {unk(t)}


def judge(eng, term, attr, want, skip=lambda t: False):
    """every alternative carries the attribute of one of the terms 'want'"""
    ok, why = True, ""
    for x in alternatives(term):
        if is_const(x) or skip(x):
            continue
        for k, v in carried(eng, x, attr):
            if k == "from" and want(v):
                continue
            if k == "none":
                return False, "the %s is lost: the data passes through %s" \
                    % (attr, show(v)[-70:])
            if k == "value":
                return False, "the %s is replaced by %s" % (attr, show(v))
            if k == "from" and v.op == "param":
                return False, "the %s is taken from %s" % (attr, show(v))
            ok = None
    return ok, why


METHODS = [
    # name, attributes
    ("view", ("unit", "outputformat")),
    ("reorder_dimensions", ("unit", "outputformat")),
    ("transpose", ("unit", "outputformat")),
    ("T", ("unit", "outputformat")),
    ("t", ("unit", "outputformat")),
    ("take", ("unit", "outputformat")),
    ("squeeze", ("unit", "outputformat")),
    ("copy", ("unit", "outputformat")),
    ("add_dim", ("unit", "outputformat")),
    ("sum", ("unit",)), ("mean", ("unit",)), ("std", ("unit",)),
    ("min", ("unit",)), ("max", ("unit",)), ("cumsum", ("unit",)),
]


def check(prog, rep, tier):
    rep.parts(*[(f, (prog, rep)) for f in (
        methods, getitem, ctor, ctor_dim, finalize, functions, datablock)])


def methods(prog, rep):
    ci = prog.cls(H)
    for name, attrs in METHODS:
        fi = ci.find(name)
        if not isinstance(fi, FuncInfo):
            fi = ci.methods.get(name)
        if fi is None or not hasattr(fi, "node"):
            if isinstance(fi, FuncInfo) is False and fi is not None:
                fi = getattr(fi, "fget", None)
            if fi is None:
                rep.unsure("method", name)
                continue
        eng, res = run(prog, fi, inline=pol(prog), depth=4)
        rep.analysed(fi)
        for at in attrs:
            term = res.term
            skip = lambda t: False
            if name == "view":
                skip = lambda t: t.op == "call" and kwarg(t, "type") \
                    is not None and not is_array_ctor(t.args[0])
            if name == "take":
                # without axis the array is flattened: not claimed
                term = T("unk", "no result")
                for x, _ in resolve(res.term, none_assume({"axis": False})):
                    term = x if term.op == "unk" else T(
                        "phi", T("unk", "c"), term, x)
            ok, why = judge(eng, term, at, lambda v: is_param(v, "self"),
                            skip)
            rep.ob("keep-%s" % at, fi, ok, loc(fi), why)


def getitem(prog, rep):
    """the wrapper stores both attributes on the result; without a wrapper
    every path must carry them."""
    from ..lib import call
    fi = prog.cls(H).methods.get("__getitem__")
    if fi is None:
        rep.unsure("method", "__getitem__")
        return
    inl0 = pol(prog)
    deco = {d.id for d in fi.decorators if isinstance(d, ast.Name)}

    def inl(f):
        return f.name in deco or f is fi or f.parent is not None and \
            f.parent.name in deco or inl0(f)
    SELF = T("param", "self", fi.fullname)
    X = T("param", "x", fi.fullname)
    eng, t, st = call(prog, fi, [SELF, X], inline=inl)
    rep.analysed(fi)
    for at in ("unit", "outputformat"):
        sts = [e for e in eng.events if e.kind in ("store_attr", "set_prop")
               and e.name == at]
        good = [e for e in sts if all(hasattr_guard(g) for g in e.guards)
                and all(k == "from" and is_param(v, "self")
                        for k, v in value(eng, e.val, at, 0))]
        if good:
            rep.holds("keep-%s" % at, fi, good[0].loc)
            continue
        bad = [e for e in sts if any(
            k == "value" or k == "from" and not is_param(v, "self")
            for k, v in value(eng, e.val, at, 0))]
        if bad:
            rep.bad("keep-%s" % at, fi, bad[0].loc, "the %s of the result is "
                    "set to %s" % (at, show(bad[0].val)[-60:]))
            continue
        ok, why = judge(eng, t, at, lambda v: is_param(v, "self"),
                        lambda x: not arrayish(x))
        rep.ob("keep-%s" % at, fi, ok, loc(fi), why)


def arrayish(x):
    """label sites only: plain numpy results (scalars) are not arrays"""
    return x.op == "call" and is_array_ctor(x.args[0])


def ctor(prog, rep):
    fi = prog.cls(H).methods.get("__new__")
    if fi is None:
        rep.unsure("ctor", H)
        return
    eng, res = run(prog, fi, inline=pol(prog), depth=4)
    rep.analysed(fi)
    for at in ("unit", "outputformat"):
        sts = [e for e in eng.events
               if e.kind in ("store_attr", "set_prop") and e.name == at or
               e.kind == "store_sub" and e.key is not None and
               is_const(e.key) and cval(e.key) == at]
        if not sts:
            rep.unsure("ctor-%s" % at, fi, loc(fi), "no store")
            continue
        for given, has in ((True, True), (True, False), (False, True),
                           (False, False)):
            asm = ctor_assume(at, given, has)
            fin = final(eng, sts, asm)
            name = "%s %s, data %s one" % (
                fi.fullname, "given" if given else "not given",
                "has" if has else "has not")
            if fin is None:
                rep.unsure("ctor-%s" % at, name, loc(fi))
                continue
            ok = True
            for x in fin:
                isdata = x.op == "attr" and x.args[1] == at and is_param(
                    x.args[0], "data") or x.op == "call" and fname(
                        x.args[0]) == "builtins.getattr" and is_param(
                            x.args[1][0], "data")
                if given:
                    good = is_param(x, at)
                elif has:
                    good = isdata
                else:
                    good = not isdata and (
                        at == "outputformat" and not is_param(x, at) or
                        at == "unit" and (is_param(x, at) or is_const(x) and
                                          cval(x) is None) or
                        x.op == "call" and len(x.args[1]) > 2)
                if good:
                    continue
                if is_const(x) or x.op in ("param", "attr") or isdata:
                    ok = False
                    why = show(x)
                    break
                ok = None
            rep.ob("ctor-%s" % at, name, ok, loc(fi), "" if ok is not False
                   else "the %s becomes %s" % (at, why))


def ctor_assume(at, given, has):
    base = none_assume({at: not given})

    def assume(c):
        r = base(c)
        if r is not None:
            return r
        if c.op == "call" and fname(c.args[0]) == "builtins.hasattr" and \
                len(c.args[1]) > 1 and is_param(c.args[1][0], "data") and \
                is_const(c.args[1][1]) and cval(c.args[1][1]) == at:
            return has
        if c.op == "hasattr":
            return has
        return None
    return assume


def final(eng, sts, assume):
    """alternatives of the last effective store under the assumption"""
    from ..lib import decide
    out = []
    live = []
    for e in sts:
        pol = [(decide(c, assume), p) for c, p in e.guards]
        if any(d is not None and d != p for d, p in pol):
            continue
        live.append((e, all(d is not None for d, p in pol)))
    if not live:
        return None
    # stores after the last certain one
    keep = []
    for e, sure in live:
        if sure:
            keep = []
        keep.append(e)
    for e in keep:
        for x, _ in resolve(e.val, assume):
            out.append(x)
    return out


def ctor_dim(prog, rep):
    """an array made from a dimension gets the dimension's unit and format"""
    try:
        fi = prog.cls(A + "hfarray").methods["__new__"]
    except (AnalysisBroken, KeyError):
        rep.unsure("ctor-dim", A + "hfarray")
        return

    def noinit(f):
        return f.name != "__new__" and pol(prog)(f)
    eng, res = run(prog, fi, inline=noinit, depth=4)
    rep.analysed(fi)
    news = [e for e in eng.events if e.kind == "call" and
            short(e.obj) == "__new__"]
    if not news:
        rep.unsure("ctor-dim", fi, loc(fi))
        return
    for e in news:
        for p in ("dims", "dtype", "copy", "order", "subok", "ndmin", "unit",
                  "outputformat", "info"):
            if p not in fi.params:
                continue
            v = dict(e.kw).get(p)
            if v is None:
                rep.ob("ctor-forward", "%s %s" % (fi.fullname, p), None
                       if any(k is None for k, _ in e.kw) or len(e.args) > 2
                       else False, e.loc, "%s is not passed on" % p)
                continue
            ok = any(is_param(x, p) for x in alternatives(v))
            rep.ob("ctor-forward", "%s %s" % (fi.fullname, p), ok or (
                False if is_const(v) else None), e.loc,
                "" if ok else "%s is replaced by %s" % (p, show(v)[-40:]))
        for at in ("unit", "outputformat"):
            v = dict(e.kw).get(at)
            if v is None:
                continue
            # given: kept
            ok, why = True, ""
            for x, path in resolve(v, none_assume({at: False})):
                if not is_param(x, at):
                    ok, why = False, "an explicit %s is replaced by %s" % (
                        at, show(x)[-50:])
            rep.ob("ctor-dim", "%s explicit %s" % (fi.fullname, at), ok,
                   e.loc, why)
            ok, why, n = True, "", 0
            for x, path in resolve(v, none_assume({at: True})):
                n += 1
                if is_param(x, at) or is_const(x):
                    continue
                if x.op == "attr" and x.args[1] == at:
                    continue
                if x.op == "attr" and x.args[1] in (
                        "unit", "outputformat", "name", "fullname"):
                    ok, why = False, "%s taken from the dimension's %s" % (
                        at, x.args[1])
                elif ok:
                    ok = None
            if not any(x.op == "attr" and x.args[1] == at for x, _ in
                       resolve(v, none_assume({at: True}))) and ok:
                ok, why = False, "the dimension's %s is not used" % at
            rep.ob("ctor-dim", "%s %s of a dimension" % (fi.fullname, at),
                   ok, e.loc, why)


def finalize(prog, rep):
    fi = prog.cls(H).methods.get("__array_finalize__")
    if fi is None:
        rep.bad("finalize", H, "", "views and slices made by numpy carry no "
                "dims, unit and outputformat")
        return
    eng, res = run(prog, fi, inline=pol(prog), depth=3)
    rep.analysed(fi)
    for at in ("_dims", "unit", "outputformat"):
        sts = [e for e in eng.events
               if e.kind in ("store_attr", "set_prop") and
               e.name.lstrip("_") == at.lstrip("_") or
               e.kind == "store_sub" and e.key is not None and
               is_const(e.key) and cval(e.key) == at]
        if not sts:
            upd = any(e.kind == "mut" and e.name == "update"
                      for e in eng.events)
            rep.ob("finalize", "%s %s" % (fi.fullname, at), None if upd
                   else False, loc(fi), "a view does not get the %s of its "
                   "source" % at)
            continue
        e = sts[-1]
        good = [x for x in deps(eng, e.val, control=False)
                if x.op == "attr" and x.args[1].lstrip("_") ==
                at.lstrip("_") and is_param(x.args[0], "obj") or
                x.op == "call" and fname(x.args[0]) == "builtins.getattr" and
                len(x.args[1]) > 1 and is_param(x.args[1][0], "obj") and
                is_const(x.args[1][1]) and
                str(cval(x.args[1][1])).lstrip("_") == at.lstrip("_")]
        use = any(is_param(x, fi.params[1]) for x in
                  deps(eng, e.val)) if len(fi.params) > 1 else False
        rep.ob("finalize", "%s %s" % (fi.fullname, at), True if good else (
            False if not use or is_other(eng, e.val, at) else None), e.loc,
            "" if good else "a view gets %s as %s" % (show(e.val)[-60:], at))


def is_other(eng, v, at):
    for x in deps(eng, v, control=False):
        if x.op == "call" and fname(x.args[0]) == "builtins.getattr" and \
                len(x.args[1]) > 1 and is_const(x.args[1][1]) and \
                cval(x.args[1][1]) in ("unit", "outputformat", "_dims") and \
                cval(x.args[1][1]).lstrip("_") != at.lstrip("_"):
            return True
    return False


FUNCS = [
    ("hftools.dataset.arrayobj:remove_rep", "data", ("unit", "outputformat")),
    ("hftools.dataset.arrayobj:remove_tail", "x", ("unit",)),
    ("hftools.dataset.arrayobj:change_shape", "x", ("unit", "outputformat")),
    ("hftools.dataset.dataset:interpolate", "y", ("unit", "outputformat")),
    ("hftools.math:chop", "x", ("unit", "outputformat")),
]


def functions(prog, rep):
    for fn, par, attrs in FUNCS:
        try:
            fi = prog.func(fn)
        except AnalysisBroken:
            rep.unsure("function", fn)
            continue
        inl = pol(prog)
        eng, res = run(prog, fi, inline=lambda f: f.name !=
                       "make_fullcomplex_array" and inl(f), depth=4)
        rep.analysed(fi)
        for at in attrs:
            skip = lambda t: any(
                y.op == "call" and short(y.args[0]) ==
                "make_fullcomplex_array" for y in deps(eng, t,
                                                       control=False))
            if fn.endswith("remove_tail"):
                skip = lambda t: not arrayish(t)
            if fn.endswith("chop"):
                skip = lambda t: t.op == "bin"
            ok, why = judge(eng, res.term, at, lambda v: is_param(v, par),
                            skip)
            rep.ob("keep-%s" % at, fi, ok, loc(fi), why)


def datablock(prog, rep):
    """variables stored into the result of filter/sort keep their unit"""
    DBK = "hftools.dataset.dataset:DataBlock"
    for name in ("filter", "sort", "squeeze", "interpolate", "hyper",
                 "remove_rep"):
        fi = prog.cls(DBK).methods.get(name)
        if fi is None:
            rep.unsure("datablock", name)
            continue
        eng, res = run(prog, fi, inline=nodb(prog), depth=4)
        eng.block = True
        rep.analysed(fi)
        n = 0
        for e in eng.events:
            v = None
            if e.kind == "store_sub":
                k, v = e.key, e.val
            elif e.kind == "call" and short(e.obj) == "__setitem__":
                a = e.args[-2:]
                k, v = a[0], a[1]
            if v is None or k is None or not varkey(eng, k):
                continue
            n += 1
            for at in ("unit", "outputformat"):
                ok, why = judge(eng, v, at, lambda s: vardata(eng, s))
                if ok is None and name == "interpolate":
                    ok = None
                rep.ob("keep-%s" % at, "%s #%d" % (fi.fullname, n), ok,
                       e.loc, why)


def nodb(prog):
    inl = pol(prog)

    def f(fi):
        if fi.cls is not None and fi.cls.name in ("DataBlock", "DataDict"):
            return fi.cls.name == "DataBlock" and not fi.name.startswith("__")
        if fi.name in ("interpolate", "remove_rep"):
            return True
        return inl(fi)
    return f


def varkey(eng, k):
    """the key runs over the variables of the block"""
    return any(x.op == "attr" and x.args[1] == "vardata" for x in
               deps(eng, k, control=False))


def vardata(eng, s):
    return not is_param(s) and any(
        x.op == "attr" and x.args[1] == "vardata" or is_param(x, "self")
        for x in deps(eng, s, control=False))
