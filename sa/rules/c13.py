"""Appending to a HDF5 file adds one sample to every variable, or nothing."""
import ast

from ..engine import cval, is_const, show
from ..lib import kwarg, loc, run, short
from .c12 import (PKG, V, arms, chain, const_str, find, inl,
                  inverse, key_of, key_role, lossless, replaces, root_key,
                  stamp)

RULE = (
    "In append_hdf5 every refusal (explicit raise) comes before the first "
    "change of the file; changes are made only when the file carries the "
    "version stamp of the writer. The index grows by one entry holding the "
    "last value plus one, read before growing. Every dataset that is not a "
    "dimension grows by one along the axis the writer left open, and the new "
    "slab at the end of this axis receives the values of the variable of the "
    "same (unescaped) name, cast as when saving; no dataset is skipped "
    "otherwise, and a missing variable is refused.")
MIN = 8


def check(prog, rep, tier):
    rep.parts((append, (prog, rep)))


def is_file_ds(t):
    """datasets of the file: handle[key]"""
    return t.op == "sub" and t.args[0].op == "param" and \
        t.args[0].args[0] != "db"


def append(prog, rep):
    fi = find(prog, V["0.2"], "append_hdf5")
    if fi is None:
        rep.unsure("append", PKG, "", "append_hdf5 not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=6)
    rep.analysed(*{e.fi for e in eng.events if e.fi is not None})
    dbn, fhn = fi.params[0], fi.params[1]
    grow, stores, raises = [], [], []
    for e in eng.events:
        o = e.obj
        if e.kind == "call" and o is not None and o.op == "attr" and \
                o.args[1] == "resize" and any(is_file_ds(a) for a in
                                              arms(o.args[0])):
            grow.append(e)
        elif e.kind == "store_sub" and o is not None and any(
                is_file_ds(a) for a in arms(o)):
            stores.append(e)
        elif e.kind == "raise":
            raises.append(e)
    muts = grow + stores
    if not grow or not stores:
        rep.unsure("append", fi, loc(fi), "growing or storing not recognised")
        return
    refusal(rep, fi, muts, raises)
    version(prog, rep, fi, muts)
    index = [e for e in muts if is_index(ds(e))]
    var = [e for e in muts if not is_index(ds(e))]
    index_rules(rep, fi, eng, index)
    var_rules(prog, rep, fi, eng, var, raises, dbn)


def ds(e):
    o = e.obj.args[0] if e.kind == "call" else e.obj
    return [a for a in arms(o) if is_file_ds(a)][0]


def is_index(d):
    return "expand" in key_role(d.args[1]) or is_const(d.args[1])


def refusal(rep, fi, muts, raises):
    first = min(muts, key=lambda e: e.seq)
    late = [e for e in raises if e.seq > first.seq]
    for e in late:
        rep.bad("all-or-nothing", fi, e.loc, "%s is raised after the file was "
                "changed at %s" % (show(e.val)[:100], first.loc))
    if not late:
        rep.holds("all-or-nothing", fi, first.loc, "%d refusals before the "
                  "first change" % len(raises))


def version(prog, rep, fi, muts):
    st = stamp(prog, V["0.2"])
    if st is None:
        rep.unsure("version", fi, loc(fi), "stamp not found")
        return
    key, val, _ = st
    for e in muts:
        got = None
        for c, pol in e.guards:
            if c.op == "cmp" and c.args[0] in ("Eq", "NotEq"):
                ks = {k for x in c.args[1:] for k, _, _ in key_of(x)}
                cs = [const_str(x) for x in c.args[1:]
                      if const_str(x) is not None]
                if ks and cs:
                    got = (key in ks, cs[0] == val,
                           pol == (c.args[0] == "Eq"))
        if got is None:
            rep.bad("version", fi, e.loc, "the file is changed without "
                    "testing its version")
            return
        if got != (True, True, True):
            rep.bad("version", fi, e.loc, "files are stamped %r=%r; another "
                    "stamp is tested here" % (key, val))
            return
    rep.holds("version", fi, muts[0].loc)


def plus_one(t, d, ax):
    """t is d.shape[ax] + 1"""
    if t.op == "tuple" and len(t.args) == 1:
        t = t.args[0]
    if t.op != "bin" or t.args[0] != "Add":
        return None
    c = [x for x in t.args[1:] if is_const(x)]
    o = [x for x in t.args[1:] if not is_const(x)]
    if len(c) != 1 or len(o) != 1:
        return None
    o = o[0]
    if o.op == "call" and short(o.args[0]) == "len" and o.args[1]:
        return o.args[1][0] is d and cval(c[0]) == 1
    if o.op == "sub" and o.args[0].op == "attr" and \
            o.args[0].args[1] == "shape":
        return o.args[0].args[0] is d and o.args[1] is ax and \
            cval(c[0]) == 1
    return None


def index_rules(rep, fi, eng, ev):
    rule = "index"
    g = [e for e in ev if e.kind == "call"]
    s = [e for e in ev if e.kind == "store_sub"]
    if not g:
        rep.bad(rule, fi, loc(fi), "the index does not grow")
        return
    e = g[0]
    d = ds(e)
    ax = kwarg(e, "axis", 1)
    n = e.args[0] if e.args else kwarg(e, "size")
    r = plus_one(n, d, ax) if ax is not None else None
    if r is False or ax is not None and is_const(ax) and cval(ax) != 0:
        rep.bad(rule, fi, e.loc, "the index is resized to %s" % show(n)[:120])
    elif r is None:
        rep.unsure(rule, fi, e.loc, show(n)[:120])
    else:
        rep.holds(rule, fi, e.loc, "grows by one")
    if not s:
        rep.bad(rule, fi, e.loc, "the new entry of the index gets no value")
        return
    x = s[0]
    k, v = x.key, x.val
    last = is_last(k, d)
    if last is False:
        rep.bad(rule, fi, x.loc, "the value goes to entry %s" % show(k)[:60])
    if x.seq < e.seq:
        rep.bad(rule, fi, x.loc, "the value is stored before the index grows")
    if v.op == "bin" and v.args[0] in ("Add", "Sub"):
        c = [y for y in v.args[1:] if is_const(y)]
        o = [y for y in v.args[1:] if not is_const(y)]
        if len(c) == 1 and len(o) == 1 and o[0].op == "sub" and \
                o[0].args[0] is d:
            if v.args[0] != "Add" or cval(c[0]) != 1:
                rep.bad(rule, fi, x.loc, "the new value is %s, not the last "
                        "one plus 1" % show(v)[:100])
                return
            if is_last(o[0].args[1], d) is False:
                rep.bad(rule, fi, x.loc, "the new value is derived from entry "
                        "%s" % show(o[0].args[1])[:60])
                return
            late = read_late(fi)
            if late:
                rep.bad(rule, fi, loc(fi, late), "the last value is read "
                        "after the index has grown")
                return
            rep.holds(rule, fi, x.loc, "last value plus one")
            return
    if is_const(v):
        rep.bad(rule, fi, x.loc, "every appended sample gets the index %s" %
                show(v))
        return
    rep.unsure(rule, fi, x.loc, show(v)[:100])


def read_late(fi):
    """a load of the last index entry in a statement after the one that grows
    the index (same function, straight line)"""
    grown = False
    for s in fi.node.body:
        loads = [n for n in ast.walk(s) if isinstance(n, ast.Subscript) and
                 isinstance(n.ctx, ast.Load) and "expanddim" in
                 ast.dump(n.value) and isinstance(n.value, ast.Subscript)]
        if grown and loads and not isinstance(s, ast.For):
            return loads[0]
        if isinstance(s, ast.For):
            continue
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and "expanddim" in ast.dump(n) and (
                    isinstance(n.func, ast.Attribute) and
                    n.func.attr == "resize" or
                    isinstance(n.func, ast.Name) and
                    "expand" in n.func.id):
                grown = True
    return None


def is_last(k, d):
    if k.op == "tuple" and len(k.args) == 1:
        k = k.args[0]
    if is_const(k):
        return cval(k) == -1
    if k.op == "un" and k.args[0] == "USub" and is_const(k.args[1]):
        return cval(k.args[1]) == 1
    if k.op == "bin" and k.args[0] == "Sub" and is_const(k.args[2]):
        return cval(k.args[2]) == 1 or False
    if k.op == "sub" or k.op == "call" and short(k.args[0]) == "len":
        return None
    return None


def var_rules(prog, rep, fi, eng, ev, raises, dbn):
    rule = "variables"
    g = [e for e in ev if e.kind == "call"]
    s = [e for e in ev if e.kind == "store_sub"]
    if not g or not s:
        rep.bad(rule, fi, loc(fi), "variables are %s" % (
            "not stored" if g else "not grown"))
        return
    skip(rep, fi, s + g)
    for e in g:
        d = ds(e)
        ax = kwarg(e, "axis", 1)
        n = e.args[0] if e.args else kwarg(e, "size")
        r = plus_one(n, d, ax) if ax is not None else None
        if r is False:
            rep.bad(rule, fi, e.loc, "resized to %s along %s" % (
                show(n)[-120:], show(ax)[-100:]))
        elif r is None:
            rep.unsure(rule, fi, e.loc, show(n)[:120])
        open_ax = ax is not None and ax.op == "call" and \
            ax.args[0].op == "attr" and ax.args[0].args[1] == "index" and \
            ax.args[0].args[0].op == "attr" and \
            ax.args[0].args[0].args[1] == "maxshape" and ax.args[1] and \
            is_const(ax.args[1][0]) and cval(ax.args[1][0]) is None
        if open_ax and ax.args[0].args[0].args[0] is d:
            rep.holds(rule, fi, e.loc, "the open axis grows")
        elif ax is not None and is_const(ax):
            rep.bad(rule, fi, e.loc, "axis %s grows, whatever axis was left "
                    "open when saving" % show(ax))
        else:
            rep.unsure(rule, fi, e.loc, "axis %s" % (
                show(ax)[:100] if ax is not None else None))
        mine = [x for x in s if ds(x) is d]
        if not mine:
            rep.bad(rule, fi, e.loc, "the new slab of %s gets no values" %
                    show(d)[:80])
            continue
        x = mine[0]
        if x.seq < e.seq:
            rep.bad(rule, fi, x.loc, "values are stored before the dataset "
                    "grows")
        slab(rep, fi, x, d, ax)
        value(prog, rep, fi, x, d, dbn)
    missing(rep, fi, raises, min(e.seq for e in ev), dbn)


def slab(rep, fi, x, d, ax):
    """(slice(None),) * ax + (shape[ax] - 1,)"""
    rule = "slab"
    k = x.key
    if k.op == "bin" and k.args[0] == "Add":
        pre, post = k.args[1], k.args[2]
        if post.op == "tuple" and post.args and pre.op == "bin" and \
                pre.args[0] == "Mult":
            n = [y for y in pre.args[1:] if y.op != "tuple"]
            last = post.args[0]
            if n and ax is not None and n[0] is not ax and (
                    is_const(n[0]) or n[0].op == "bin"):
                rep.bad(rule, fi, x.loc, "the slab lies along axis %s, the "
                        "axis that grew is %s" % (show(n[0])[-100:],
                                                  show(ax)[-100:]))
                return
            ok = is_last(last, d)
            if ok and last.op == "bin" and last.args[1].op == "sub":
                a = last.args[1]
                ok = a.args[0].op == "attr" and a.args[0].args[0] is d and \
                    (a.args[1] is ax)
            if ok is False:
                rep.bad(rule, fi, x.loc, "values are stored at %s, not at the "
                        "end of the axis" % show(last)[-100:])
                return
            if ok:
                rep.holds(rule, fi, x.loc)
                return
    rep.unsure(rule, fi, x.loc, show(k)[:120])


def value(prog, rep, fi, x, d, dbn):
    rule = "values"
    st = stamp(prog, V["0.2"])
    ok = True
    for end, ops in chain(x.val):
        for op, t, path in ops:
            r = lossless(op, path)
            if r is False:
                rep.bad(rule, fi, x.loc, "values are changed by %s" %
                        show(t)[:120])
                ok = False
        if end.op == "sub":
            k = end.args[1]
            if root_key(k) is not root_key(d.args[1]):
                if root_key(k).op in ("elem", "key", "const"):
                    rep.bad(rule, fi, x.loc, "%s receives the values of %s"
                            % (show(d.args[1])[:80], show(k)[:80]))
                    ok = False
                else:
                    ok = ok and None
                continue
            w = writer_escape(prog)
            if w is not None and replaces(k) != inverse(w):
                rep.bad(rule, fi, x.loc, "names are escaped with %r and "
                        "looked up with %r" % (w, replaces(k)))
                ok = False
        else:
            ok = ok and None
    casts = [t for end, ops in chain(x.val) for op, t, p in ops
             if isinstance(op, tuple)]
    if ok and not casts:
        rep.bad(rule, fi, x.loc, "dates and strings are appended without the "
                "cast used when saving")
        ok = False
    if ok:
        rep.holds(rule, fi, x.loc)
    elif ok is None:
        rep.unsure(rule, fi, x.loc, show(x.val)[:150])


def writer_escape(prog):
    if not hasattr(prog, "_h5esc"):
        prog._h5esc = None
        wr = find(prog, V["0.2"], "save_hdf5_handle")
        if wr is not None:
            eng, _ = run(prog, wr, inline=inl, depth=6)
            for e in eng.events:
                if e.kind == "call" and e.obj is not None and \
                        short(e.obj) == "create_dataset" and e.args and \
                        "var" in key_role(e.args[0]):
                    prog._h5esc = replaces(e.args[0])
    return prog._h5esc


def skip(rep, fi, ev):
    """conditions under which a dataset is not appended to"""
    rule = "complete"
    ok = True
    for e in ev:
        for c, pol in e.guards:
            if not any(y.op in ("elem", "key") for y in walk(c)):
                continue
            if c.op == "cmp" and c.args[0] == "In" and \
                    c.args[2].op == "attr":
                a = c.args[2].args[1]
                if a == "ivardata" and not pol or a == "vardata" and pol:
                    continue
                if a == "attrs" and not pol and const_str(c.args[1]):
                    continue
            if c.op == "cmp" and c.args[0] == "Eq" and not pol and any(
                    "expand" in key_role(y) for y in c.args[1:]):
                continue
            if c.op == "cmp" and c.args[0] == "In" and not pol and any(
                    x.op == "attr" and x.args[1] == "ivardata"
                    for x in walk(c.args[2])):
                continue
            if c.op == "cmp" and c.args[0] in ("Eq", "NotEq", "Lt", "Gt",
                                               "LtE", "GtE", "In") or \
                    c.op == "attr":
                rep.bad(rule, fi, e.loc, "variables are appended only if "
                        "%s%s" % ("" if pol else "not ", show(c)[:140]))
            else:
                rep.unsure(rule, fi, e.loc, show(c)[:140])
            ok = False
    if ok:
        rep.holds(rule, fi, loc(fi))


def walk(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            for b in (a if isinstance(a, tuple) else (a,)):
                if hasattr(b, "op"):
                    todo.append(b)


def missing(rep, fi, raises, first, dbn):
    rule = "missing-variable"
    for e in raises:
        for c, pol in e.guards:
            if c.op == "cmp" and c.args[0] == "In" and not pol and any(
                    x.op in ("elem", "key") for x in walk(c.args[1])) and (
                    c.args[2].op == "attr" and
                    c.args[2].args[1] == "vardata" or
                    c.args[2].op == "param"):
                rep.ob(rule, fi, e.seq < first, e.loc)
                return
            if c.op != "cmp" and pol:
                if any(x.op == "attr" and x.args[1] == "vardata"
                       for x in walk(c)):
                    rep.unsure(rule, fi, e.loc, "")
                    return
    if any(x.op == "attr" and x.args[1] == "vardata"
           for e in raises for c, p in e.guards for x in walk(c)):
        rep.unsure(rule, fi, loc(fi), "refusal not recognised")
        return
    rep.bad(rule, fi, loc(fi), "a variable of the file that is missing in the "
            "data block is not refused")
