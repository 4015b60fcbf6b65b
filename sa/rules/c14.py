"""What the text formats' readers and writers say a number or a position
means."""
import ast
import re
import warnings

from ..algebra import RF
from ..engine import cval, is_const, show
from ..lib import fname, kwarg, loc, resolve, run, short
from ..model import ClassInfo, FuncInfo, ModVar
from ..termalg import alg
from ..valnum import (REAL, Obj, Opaque, Unsupported, cis, equal, expo, logarithm,
                      variants)
from .c12 import arms, const_str, find
from .c13 import walk
from .c16 import const_table

RULE = (
    "The readers and writers of Touchstone, CITI, MDIF and SP files are "
    "reduced to the meaning they give to each field: closed forms (rational "
    "functions with exp, nothing evaluated) of frequency scaling, "
    "number-pair conversion and noise parameters; which column, row or "
    "field of the file they come from; the order in which matrix elements "
    "are listed, from the nesting of the loops and the subscripts. Each "
    "must be the one the format defines, and writer and reader must use "
    "the same.")
MIN = 30
PKG = "hftools.file_formats"
TS, CI, MD, SP = (PKG + "." + x for x in (
    "touchstone", "citi", "mdif", "spdata"))
CO, RB = PKG + ".common", PKG + ".readbase"
A, C = RF.atom, RF.const
I, PI = A("I"), A("pi")
REAL |= {"a", "b", "f", "mult", "z0"}
PREFIX = {"HZ": 1, "KHZ": 10 ** 3, "MHZ": 10 ** 6, "GHZ": 10 ** 9,
          "THZ": 10 ** 12, "PHZ": 10 ** 15}


def FORMS():
    rad = cis(PI * A("b") / C(180))
    return {"RI": A("a") + I * A("b"),
            "MA": A("a") * rad,
            "DB": expo(A("a") / C(20) * logarithm(C(10))) * rad}


def inl(fi):
    return fi.module.name.startswith(PKG) and "omments" not in fi.fullname


def check(prog, rep, tier):
    rep.parts(*[(f, (prog, rep)) for f in (
        ts_read, ts_split, ts_ports, ts_write, columns, elements, citi_read,
        citi_write, mdif_read, mdif_write, cplx, matrices, digits)])


def form(prog, rep, rule, fi, where, t, leaf, want, what):
    """term t must be the rational function want"""
    wants = want if isinstance(want, list) else [want]
    try:
        v = alg(t, leaf, prog)
    except Unsupported as e:
        rep.unsure(rule, fi, where, "%s: %s" % (e, show(t)[:200]))
        return None
    ok = any(equal(v, w) for w in wants)
    rep.ob(rule, fi, ok, where, "" if ok else "%s is %r, expected %r" % (
        what, v, wants[0]))
    return ok


def table_of(prog, eng, t):
    """{key: value} of a table term; value: number (RF) or FuncInfo"""
    out = {}
    if t.op == "ent" and isinstance(t.args[0], ModVar):
        c = const_table(prog, t.args[0])
        return c
    if t.op == "modvar":
        return const_table(prog, t.args[0])
    if t.op == "obj":
        for en in eng.contents_log.get(t, ()):
            k = const_str(en[1]) if en[1] is not None else None
            if en[0] == "ext" or k is None:
                return None
            out[k] = en[2]
        return out
    return None


def field(t, root):
    """(index, uppercased) of the whitespace separated field of root"""
    up = False
    while t.op == "call" and t.args[0].op == "attr" and \
            t.args[0].args[1] in ("upper", "strip"):
        up = up or t.args[0].args[1] == "upper"
        t = t.args[0].args[0]
    if t.op != "sub" or not is_const(t.args[1]):
        return None
    i, s = cval(t.args[1]), t.args[0]
    if s.op != "call" or s.args[0].op != "attr" or \
            s.args[0].args[1] != "split" or s.args[1]:
        return None
    x = s.args[0].args[0]
    while x.op == "call" and x.args[0].op == "attr" and \
            x.args[0].args[1] in ("upper", "strip", "lstrip", "rstrip"):
        up = up or x.args[0].args[1] == "upper"
        x = x.args[0].args[0]
    return (i, up) if x is root or show(x) == show(root) else None


# -- Touchstone ------------------------------------------------------------

def par(eng, fi, i):
    for x in eng_terms(eng):
        if x.op == "param" and x.args[0] == fi.params[i]:
            return x
    return None


def eng_terms(eng):
    for e in eng.events:
        for t in (e.obj, e.val) + tuple(e.args) + tuple(
                v for _, v in e.kw):
            if t is not None:
                for x in walk(t):
                    yield x


def ts_read(prog, rep):
    fi = find(prog, TS, "proc_info")
    if fi is None or len(fi.params) < 5:
        rep.unsure("touchstone", TS, "", "proc_info not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(*{e.fi for e in eng.events if e.fi is not None})
    info, f, data, fn, noise = (par(eng, fi, i) for i in range(5))
    z0 = [None]
    for e in eng.events:
        if e.kind == "store_attr" and e.name == "Z0" or \
                e.kind == "store_sub" and e.key is not None and \
                const_str(e.key) == "Z0":
            z0[0] = e.val
    freq(prog, rep, fi, eng, info, {"freq": f, "freqn": fn})
    pairs(prog, rep, fi, eng, info, data, noise)
    layout(prog, rep, fi, eng, data)
    impedance(rep, fi, eng, info, z0[0])
    for e in eng.events:
        nm = e.name if e.kind == "store_attr" else (
            const_str(e.key) if e.kind == "store_sub" and e.key is not None
            else None)
        if nm in ("Rn", "Fmin"):
            noise_par(prog, rep, fi, e, nm, noise, z0[0])


def freq(prog, rep, fi, eng, info, roots):
    rule = "frequency"
    for e in eng.events:
        if e.kind != "call" or short(e.obj) != "DimSweep" or not e.args:
            continue
        nm = const_str(e.args[0])
        if nm not in roots:
            continue
        root = roots[nm]
        d = kwarg(e, "data", 1)
        u = kwarg(e, "unit")
        if u is None or const_str(u) != "Hz":
            rep.ob(rule, fi, False if u is None or const_str(u) else None,
                   e.loc, "%s gets the unit %s" % (nm, u and show(u)))
        alts = list(arms(d))
        for x in alts:
            if x.op == "param" and x is root and len(alts) > 1:
                continue          # the arm without noise data
            tab = []

            def leaf(t):
                if t is root:
                    return A("f")
                if t.op == "sub" and field(t.args[1], info):
                    tab.append(t)
                    return A("mult")
                return None
            if form(prog, rep, rule, fi, e.loc, x, leaf,
                    A("f") * A("mult"), nm):
                k = field(tab[0].args[1], info)
                rep.ob(rule, fi, k[0] == 0, e.loc, "%s is scaled by field %d "
                       "of the # line" % (nm, k[0]))
                t = table_of(prog, eng, tab[0].args[0])
                if t is None:
                    rep.unsure("frequency-table", fi, e.loc, "")
                    continue
                freq_table(rep, fi, e, t, k[1])


def num(v):
    if isinstance(v, RF):
        return v
    if isinstance(v, (int, float)):
        return RF.const(v) if isinstance(v, int) else None
    if hasattr(v, "op") and is_const(v) and isinstance(
            cval(v), (int, float)):
        from ..valnum import rf
        return rf(cval(v))
    return None


def freq_table(rep, fi, e, t, up):
    from ..valnum import rf
    for k, want in sorted(PREFIX.items()):
        v = t.get(k)
        if v is None:
            rep.bad("frequency-table", fi, e.loc, "the unit %s of the # line "
                    "is not known%s" % (k, "" if k.lower() not in t else
                                        " in upper case"))
            continue
        if isinstance(v, (int, float)):
            v = rf(v)
        elif hasattr(v, "op"):
            v = num(v)
        ok = None if v is None else equal(v, C(want))
        rep.ob("frequency-table", fi, ok, e.loc, "" if ok else
               "%s multiplies by %r" % (k, v))
    if not up:
        rep.bad("frequency-table", fi, e.loc, "the # line is compared without "
                "regard to its case being arbitrary")


def column(t, root):
    """(start, step) of the columns of root selected by t, or index"""
    if t.op != "sub" or t.args[0] is not root:
        return None
    k = t.args[1]
    last = k.args[-1] if k.op == "tuple" else k
    if k.op == "tuple" and len(k.args) != 2:
        return None
    if last.op == "slice":
        s, e, st = last.args
        if not (is_const(s) and is_const(e) and is_const(st)) or \
                cval(e) is not None:
            return None
        return ("every", cval(s) or 0, cval(st) or 1)
    if is_const(last) and isinstance(cval(last), int):
        return ("one", cval(last), None)
    return None


def pairs(prog, rep, fi, eng, info, data, noise):
    """conv[format](first of each pair, second of each pair)"""
    rule = "pairs"
    seen = 0
    for e in eng.events:
        if e.kind != "call" or e.obj is None or len(e.args) != 2:
            continue
        roots = [r for r in (data, noise) if r is not None and all(
            any(x is r for x in walk(a)) for a in e.args)]
        if not roots or e.obj.op != "sub" or not field(e.obj.args[1], info):
            continue
        seen += 1
        k = field(e.obj.args[1], info)
        rep.ob(rule, fi, k[0] == 2, e.loc, "the number format is taken from "
               "field %d of the # line" % k[0])
        want = [("every", 0, 2), ("every", 1, 2)] if roots[0] is data else \
            [("one", 1, None), ("one", 2, None)]
        for a, w, nm in zip(e.args, want, ("first", "second")):
            got = column(a, roots[0])
            if got and got[0] == "one" and got[1] is not None and \
                    got[1] < 0 and roots[0] is noise:
                got = ("one", got[1] + 4, None)
            rep.ob(rule, fi, None if got is None else got == w, e.loc,
                   "" if got == w else "the %s number of each pair is read "
                   "from %s" % (nm, show(a)[:120]))
        t = table_of(prog, eng, e.obj.args[0])
        if t is None:
            rep.unsure("formats", fi, e.loc, "table of formats")
            continue
        formats(prog, rep, fi, e, t)
    if seen < 1:
        rep.unsure(rule, fi, loc(fi), "conversion not recognised")


def formats(prog, rep, fi, e, t):
    for k, want in FORMS().items():
        v = t.get(k)
        if v is None:
            rep.bad("formats", fi, e.loc, "number format %s is unknown" % k)
            continue
        f = v.args[0] if hasattr(v, "op") and v.op in (
            "ent", "closure") and v.args else getattr(v, "fi", None)
        if not isinstance(f, FuncInfo):
            rep.unsure("formats", fi, e.loc, "%s: %r" % (k, v))
            continue
        rep.analysed(f)
        try:
            vs = [x for x, _ in variants(prog, f, [A("a"), A("b")])]
        except Exception as exc:
            rep.unsure("formats", fi, e.loc, "%s: %s" % (k, exc))
            continue
        for x in vs:
            ok = equal(x, want) if isinstance(x, RF) else None
            rep.ob("formats", fi, ok, e.loc, "" if ok else "format %s is "
                   "converted by %s to %r" % (k, f.name, x))


def layout(prog, rep, fi, eng, data):
    """two-ports are listed column by column, all others row by row"""
    rule = "element-order"
    calls = [e for e in eng.events if e.kind == "call" and
             short(e.obj) == "make_matrix" and e.args]
    if not calls:
        rep.unsure(rule, fi, loc(fi), "make_matrix not called")
        return
    e = calls[-1]

    def assume_n(n):
        def assume(c):
            if c.op == "cmp" and c.args[0] in ("Eq", "NotEq"):
                k = [cval(x) for x in c.args[1:] if is_const(x)]
                o = [x for x in c.args[1:] if not is_const(x)]
                if len(k) == 1 and len(o) == 1 and isinstance(k[0], int):
                    v = None
                    sh = show(o[0])
                    if o[0].op == "sub" and is_const(o[0].args[1]) and \
                            cval(o[0].args[1]) in (1, -1) and \
                            o[0].args[0].op == "attr" and \
                            o[0].args[0].args[1] == "shape":
                        v = n * n if o[0].args[0].args[0] is not data \
                            else 2 * n * n
                    elif "sqrt" in sh and o[0].op == "call":
                        v = n
                    if v is not None:
                        return (v == k[0]) == (c.args[0] == "Eq")
            return None
        return assume
    for n in (1, 2, 3, 4):
        got = {transposed(t) for t, p in resolve(e.args[0], assume_n(n))
               if not p}
        und = [p for t, p in resolve(e.args[0], assume_n(n)) if p]
        if und or len(got) != 1 or None in got:
            rep.unsure(rule, fi, e.loc, "%d-port" % n)
            continue
        g, = got
        if n == 1:
            continue
        rep.ob(rule, fi, g == (n == 2), e.loc, "" if g == (n == 2) else
               "a %d-port is read %s" % (n, "column by column" if g else
                                         "row by row"))


def transposed(t):
    """has the last two axes of the array been swapped?"""
    n = False
    while True:
        if t.op == "call" and t.args[0].op == "attr":
            m, a = t.args[0].args[1], t.args[1]
            v = [cval(x) for x in a if is_const(x)]
            if a and len(a) == 1 and a[0].op == "tuple":
                v = [cval(x) for x in a[0].args if is_const(x)]
            if m == "transpose":
                if len(v) != 3:
                    return None
                if v[-1] < 0:
                    v = [x % 3 for x in v]
                if v == [0, 2, 1]:
                    n = not n
                elif v != [0, 1, 2]:
                    return None
            elif m == "swapaxes":
                if len(v) != 2 or {x % 3 for x in v} != {1, 2}:
                    return None
                n = not n
            elif m == "reshape":
                o = kwarg(t, "order")
                if o is not None:
                    if const_str(o) == "F":
                        n = not n
                    else:
                        return None
            else:
                return None
            t = t.args[0].args[0]
        elif t.op == "call" and short(t.args[0]) in (
                "transpose", "swapaxes") and t.args[1]:
            a = t.args[1][1:]
            v = [cval(x) for x in a if is_const(x)]
            if a and a[0].op == "tuple":
                v = [cval(x) for x in a[0].args if is_const(x)]
            if short(t.args[0]) == "transpose" and v == [0, 2, 1] or \
                    short(t.args[0]) == "swapaxes" and {
                        x % 3 for x in v} == {1, 2}:
                n = not n
            else:
                return None
            t = t.args[1][0]
        elif t.op == "call" and short(t.args[0]) in ("empty", "zeros"):
            return n
        elif t.op == "call" and t.args[0].op == "sub":
            return n
        elif t.op == "loop":
            return None
        else:
            return None


def impedance(rep, fi, eng, info, z0):
    rule = "impedance"
    if z0 is None:
        rep.unsure(rule, fi, loc(fi), "Z0 not stored")
        return
    fs = {field(x, info)[0] for x in walk(z0) if field(x, info)}
    if fs:
        rep.ob(rule, fi, fs == {4}, loc(fi), "" if fs == {4} else
               "Z0 is read from field %s of the # line" % sorted(fs))
    else:
        rep.ob(rule, fi, False if all(is_const(a) for a in arms(z0)) else
               None, loc(fi), "Z0 is not read from the file")


def noise_par(prog, rep, fi, e, nm, noise, z0):
    """Rn = column * Z0, Fmin = 10**(column / 10)"""
    cols = []

    def leaf(t):
        c = column(t, noise) if noise is not None else None
        if c:
            cols.append(c)
            return A("a")
        if t.op == "call" and short(t.args[0]) == "float":
            return A("z0")
        return None
    want = A("a") * A("z0") if nm == "Rn" else \
        expo(A("a") / C(10) * logarithm(C(10)))
    if form(prog, rep, "noise", fi, e.loc, e.val, leaf, want, nm):
        w = {"Rn": (-1, 3), "Fmin": (0, -4)}[nm]
        ok = {c[1] for c in cols} <= set(w)
        rep.ob("noise", fi, ok, e.loc, "" if ok else
               "%s is read from column %s" % (nm, cols[0][1]))


def ts_split(prog, rep):
    """frequency first, then the data, also for noise"""
    fi = find(prog, TS, "proc_data")
    if fi is None:
        rep.unsure("columns", TS, "", "proc_data not found")
        return
    keep = {"process_data", "_process_data"}
    eng, res = run(prog, fi, inline=lambda f: inl(f) and f.name not in keep,
                   depth=5)
    rep.analysed(fi)
    for t, path in resolve(res.term, lambda c: None):
        if t.op != "tuple" or len(t.args) != 4:
            rep.unsure("columns", fi, loc(fi), show(t)[:100])
            continue
        for i, x in enumerate(t.args):
            if is_const(x) and cval(x) is None and i >= 2:
                continue
            while x.op == "call" and short(x.args[0]) in (
                    "array", "asarray") and x.args[1] and \
                    x.args[1][0].op in ("sub", "call"):
                x = x.args[1][0]
            got = column(x, x.args[0]) if x.op == "sub" else None
            src = [y.args[1] for y in walk(x) if y.op == "sub" and
                   y.args[0].op == "call" and
                   short(y.args[0].args[0]) == "process_data"]
            src = {cval(y) for y in src if is_const(y)}
            if got is None or len(src) != 1:
                rep.unsure("columns", fi, loc(fi), show(x)[:100])
                continue
            want = ("one", 0, None) if i % 2 == 0 else ("every", 1, 1)
            ok = got == want and src == {i // 2}
            rep.ob("columns", fi, ok, loc(fi), "" if ok else
                   "%s is %s" % (("frequency", "data", "noise frequency",
                                  "noise data")[i], show(x)[-120:]))


def ts_ports(prog, rep):
    """2 n**2 numbers after the frequency; noise only after a two-port, five
    numbers per line, when the frequency does not increase"""
    rule = "row-length"
    fi = find(prog, TS, "process_data")
    if fi is None:
        rep.unsure(rule, TS, "", "process_data not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(*{e.fi for e in eng.events if e.fi is not None})
    done = False
    for e in eng.events:
        if e.kind != "mut" or e.name != "append" or not e.guards:
            continue
        for c, pol in e.guards:
            if c.op == "cmp" and c.args[0] == "Eq" and pol:
                ln = [x for x in c.args[1:] if x.op == "call" and
                      short(x.args[0]) == "len"]
                ot = [x for x in c.args[1:] if x not in ln]
                if len(ln) == 1 and len(ot) == 1 and not done:
                    done = form(prog, rep, rule, fi, e.loc, ot[0],
                                lambda t: A("n") if t.op == "elem" else None,
                                C(2) * A("n") * A("n") + C(1),
                                "the number of values per frequency")
                    done = True
    if not done:
        rep.unsure(rule, fi, loc(fi), "length test not recognised")
    for e in eng.events:
        if e.kind == "call" and short(e.obj) == "range" and len(
                e.args) == 2 and is_const(e.args[0]):
            rep.ob("ports", fi, cval(e.args[0]) == 1, e.loc, "" if
                   cval(e.args[0]) == 1 else "the number of ports is "
                   "searched from %s" % show(e.args[0]))
            upper(prog, rep, fi, e)
    for e in eng.events:
        if e.kind == "call" and e.obj.op == "ent" and \
                short(e.obj) == "_process_data" and len(e.args) == 2 and \
                is_const(e.args[1]):
            noise_start(prog, rep, fi, e)


def upper(prog, rep, fi, e):
    t = e.args[1]
    add = C(0)
    if t.op == "bin" and t.args[0] == "Add" and is_const(t.args[2]):
        add, t = cval(t.args[2]), t.args[1]
    if t.op == "call" and short(t.args[0]) == "int" and t.args[1] and \
            t.args[1][0].op == "call" and short(
                t.args[1][0].args[0]) == "sqrt":
        def leaf(x):
            if x.op == "call" and short(x.args[0]) == "sum":
                return C(2) * A("n") * A("n") + C(1)
            return None
        try:
            v = alg(t.args[1][0].args[1][0], leaf, prog)
        except Unsupported:
            v = None
        if v is not None and equal(v, A("n") * A("n")):
            ok = isinstance(add, int) and add >= 1
            rep.ob("ports", fi, ok, e.loc, "" if ok else "a file with a "
                   "single frequency is not tried with its number of ports")
            return
    rep.unsure("ports", fi, e.loc, show(t)[:120])


def noise_start(prog, rep, fi, e):
    rule = "noise-section"
    rep.ob(rule, fi, cval(e.args[1]) == 5, e.loc, "" if
           cval(e.args[1]) == 5 else "noise lines are taken to have %s "
           "numbers" % show(e.args[1]))
    two, order = None, None
    for c, pol in e.guards:
        if c.op != "cmp":
            continue
        ks = [cval(x) for x in c.args[1:] if is_const(x)]
        if c.args[0] == "Eq" and pol and ks and isinstance(ks[0], int):
            two = ks[0]
        subs = [x for x in c.args[1:] if x.op == "sub" and is_const(
            x.args[1]) and cval(x.args[1]) == 0]
        if len(subs) == 2:
            a, b = subs
            op = c.args[0] if pol else {"LtE": "Gt", "Lt": "GtE",
                                        "Gt": "LtE", "GtE": "Lt"}.get(
                                            c.args[0])
            if is_last_row(a) and not is_last_row(b):
                op = {"GtE": "LtE", "Gt": "Lt", "LtE": "GtE",
                      "Lt": "Gt"}.get(op)
            elif not is_last_row(b):
                continue
            order = op
    if two is None:
        rep.bad(rule, fi, e.loc, "noise data are looked for whatever the "
                "number of ports")
    else:
        rep.ob(rule, fi, two == 9, e.loc, "" if two == 9 else
               "noise data are looked for when %d numbers are listed per "
               "frequency" % two)
    if order is None:
        rep.unsure(rule, fi, e.loc, "order of frequencies")
    else:
        rep.ob(rule, fi, order == "LtE", e.loc, "" if order == "LtE" else
               "noise data are looked for when the frequency is %s the last "
               "one" % {"Lt": "below", "Gt": "above", "GtE": "not below"}.get(
                   order, order))


def is_last_row(t):
    x = t.args[0]
    return x.op == "sub" and is_const(x.args[1]) and cval(x.args[1]) == -1


def percent(t):
    """(format string, [argument terms]) of a % expression"""
    if t.op == "bin" and t.args[0] == "Mod":
        s = const_str(t.args[1])
        a = t.args[2]
        return s, (list(a.args) if a.op == "tuple" else [a]), t.args[1]
    return None, None, None


def ts_write(prog, rep):
    fi = find(prog, TS, "save_touchstone")
    if fi is None:
        rep.unsure("touchstone-write", TS, "", "save_touchstone not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(*{e.fi for e in eng.events if e.fi is not None})
    head = None
    rows = []
    for e in eng.events:
        if e.kind == "call" and e.obj is not None and e.obj.op == "attr" and \
                e.obj.args[1] in ("write", "writelines") and e.args:
            for a in walk(e.args[0]):
                s, args, _ = percent(a)
                if s is None:
                    s = const_str(a)
                    args = []
                if s and s.lstrip().startswith("#"):
                    head = head or (e, s, args)
        if e.kind == "call" and short(e.obj) == "join" and e.args:
            rows.append(e)
    rule = "touchstone-write"
    if head is None:
        rep.unsure(rule, fi, loc(fi), "# line not recognised")
    else:
        e, s, args = head
        w = s.strip().lstrip("#").split()
        if len(w) == 5:
            for i, v, nm in ((0, "HZ", "frequency unit"), (1, "S", "matrix"),
                             (2, "RI", "number format"), (3, "R", "field")):
                ok = w[i].upper() == v
                rep.ob(rule, fi, ok, e.loc, "" if ok else "the # line says "
                       "%s %s; values are written as %s" % (nm, w[i], v))
            m = re.match(r"^%(?:\.(\d+))?([a-zA-Z])$", w[4])
            if not args:
                rep.bad(rule, fi, e.loc, "the # line always says %s, whatever "
                        "the reference impedance" % w[4])
            elif m:
                p, c = m.groups()
                ok = c == "s" or c == "r" or c in "eEgG" and p and \
                    int(p) >= (16 if c in "gG" else 15)
                rep.ob(rule, fi, bool(ok), e.loc, "" if ok else
                       "the reference impedance is written with %s" % w[4])
                z = [x for x in walk(args[0]) if x.op == "attr" and
                     x.args[1] == "Z0" or x.op == "sub" and
                     const_str(x.args[1]) == "Z0"]
                rep.ob(rule, fi, bool(z) or (
                    False if is_const(args[0]) else None), e.loc, "" if z
                    else "the reference impedance written is %s" %
                    show(args[0])[:80])
        else:
            rep.unsure(rule, fi, e.loc, s)
    parts_order(rep, rule, fi, eng, rows)
    for e in rows:
        for o in arms(e.args[0]):
            for en in eng.contents_log.get(o, ()):
                if part_of(en[2]) and any(
                        c.op == "call" and short(c.args[0]) in
                        ("iscomplexobj", "iscomplex") for c, _ in en[3]):
                    rep.bad(rule, fi, e.loc, "real matrices are written "
                            "with one number per element, the # line says "
                            "RI")
    two = two_port(eng)
    if two is None:
        rep.unsure("touchstone-order", fi, loc(fi), "")
    else:
        rep.ob("touchstone-order", fi, two[0], two[1], two[2])


def two_port(eng):
    """the order of the matrix elements: depends on the size exactly so that
    2x2 is column-wise"""
    for e in eng.events:
        if e.kind != "mut" or e.name != "append" or not e.args:
            continue
        v = e.args[0]
        if v.op != "sub" or v.args[1].op != "tuple":
            continue
        k = v.args[1].args
        if len(k) != 3 or k[0].op != "ent" and not (
                is_const(k[0]) and cval(k[0]) is Ellipsis):
            continue
        out = []
        for n in (2, 3):
            def assume(c, n=n):
                if c.op == "cmp" and c.args[0] in ("Eq", "NotEq"):
                    for a, b in ((c.args[1], c.args[2]),
                                 (c.args[2], c.args[1])):
                        if b.op == "tuple" and all(is_const(x)
                                                   for x in b.args):
                            r = {cval(x) for x in b.args} == {n}
                            return r == (c.args[0] == "Eq")
                        if is_const(b) and isinstance(cval(b), int) and \
                                "shape" in show(a):
                            return (cval(b) == n) == (c.args[0] == "Eq")
                if is_const(c):
                    return bool(cval(c))
                return None
            i = [t for t, p in resolve(k[1], assume) if not p]
            j = [t for t, p in resolve(k[2], assume) if not p]
            if len(i) != 1 or len(j) != 1 or i[0].op != "elem" or \
                    j[0].op != "elem":
                return None
            oi, oj = depth(e, i[0]), depth(e, j[0])
            if oi is None or oj is None:
                return None
            out.append(oi > oj)       # row index varies fastest
        if out == [True, False]:
            return True, e.loc, ""
        return False, e.loc, "two-ports are written %s, larger matrices %s" \
            % tuple("column by column" if x else "row by row" for x in out)
    return None


def depth(e, el):
    for n, l in enumerate(e.loops):
        if l == el.args[1] or l is el.args[1]:
            return n
    return None


def part_of(t):
    """'real' / 'imag' when t writes that part of a number"""
    for x in walk(t):
        if x.op == "attr" and x.args[1] in ("real", "imag"):
            return x.args[1]
        if x.op == "call" and short(x.args[0]) in ("real", "imag"):
            return short(x.args[0])
    return None


def parts_order(rep, rule, fi, eng, rows):
    """real part first, imaginary part next in every row"""
    seen = False
    for e in rows:
        for o in arms(e.args[0]):
            ents = []
            for en in eng.contents_log.get(o, ()):
                for a in arms(en[2]):
                    if a.op == "obj":
                        ents += [(x[2], en) for x in
                                 eng.contents_log.get(a, ())]
                    else:
                        ents.append((a, en))
            ps = [part_of(x) for x, _ in ents]
            if "real" in ps or "imag" in ps:
                ps = [p for p in ps if p]
                seen = True
                ok = ps == ["real", "imag"]
                rep.ob(rule, fi, ok, e.loc, "" if ok else
                       "complex numbers are written as %s" % ", ".join(ps))
    if not seen:
        rep.unsure(rule, fi, loc(fi), "rows not recognised")


# -- shared ------------------------------------------------------------------

def columns(prog, rep):
    """element (i, j) is named (i + 1, j + 1), rows slowest unless asked
    otherwise"""
    rule = "element-name"
    fi = find(prog, CO, "make_col_from_matrix")
    if fi is None:
        rep.unsure(rule, CO, "", "make_col_from_matrix not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(fi)
    fort = fi.params[3] if len(fi.params) > 3 else None
    name_vs_data(prog, rep, rule, fi, eng, fort)


def name_vs_data(prog, rep, rule, fi, eng, fort=None):
    names, datas = [], []
    for e in eng.events:
        if e.kind not in ("mut", "yield", "store_sub"):
            continue
        v = e.val if e.kind in ("yield", "store_sub") else (
            e.args[0] if e.args else None)
        if v is None:
            continue
        for x in arms(v):
            s, args, fm = percent(x)
            if args and len(args) == 3 and any(
                    y.op == "elem" for y in walk(args[1])):
                names.append((e, args))
            elif x.op == "sub" and x.args[1].op == "tuple" and \
                    len(x.args[1].args) == 3 and any(
                        y.op == "elem" for y in walk(x.args[1])):
                datas.append((e, x))
    if not names or not datas:
        rep.unsure(rule, fi, loc(fi), "names or elements not recognised")
        return
    en, args = names[0]
    ed, x = datas[0]
    for f in ((False, True) if fort else (False,)):
        def assume(c):
            if c.op == "param" and c.args[0] == fort:
                return f
            return None

        def one(t):
            r = [y for y, p in resolve(t, assume) if not p]
            return r[0] if len(r) == 1 else None
        try:
            got = []
            for a, k in ((args[1], x.args[1].args[1]),
                         (args[2], x.args[1].args[2])):
                k = one(k)
                if k is None or k.op != "elem":
                    raise Unsupported("index")
                a = deep(a, one)
                atom = {}

                def leaf(t):
                    if t.op == "elem":
                        return A(("ix", show(t), depth(
                            ed if t.args[1] in ed.loops else en, t)))
                    return None
                want = A(("ix", show(k), depth(ed, k))) + C(1)
                got.append((alg(a, leaf, prog), want, k))
        except Unsupported as exc:
            rep.unsure(rule, fi, en.loc, str(exc))
            continue
        for (v, want, k), nm in zip(got, ("row", "column")):
            ok = equal(v, want)
            rep.ob(rule, fi, ok, en.loc, "" if ok else "the %s number in the "
                   "name is %r, that of the values is %r" % (nm, v,
                                                            want))
        di, dj = depth(ed, got[0][2]), depth(ed, got[1][2])
        ni = order_in(en, args, one)
        if di is None or dj is None or di == dj:
            rep.unsure(rule, fi, ed.loc, "loops")
            continue
        ok = (di > dj) == f
        rep.ob("element-sequence", fi, ok, ed.loc, "" if ok else
               "elements are listed %s%s" % (
                   "column by column" if di > dj else "row by row",
                   " when fortranorder is set" if f else ""))
        if ni is not None and ni != (di < dj):
            rep.bad("element-sequence", fi, en.loc, "names are listed in "
                    "another order than the values")


def order_in(en, args, one):
    d = []
    for a in args[1:]:
        el = [y for y in walk(deep(a, one)) if y.op == "elem" and
              y.args[1] in en.loops]
        el = [y for y in el if depth(en, y) is not None]
        if not el:
            return None
        d.append(max(depth(en, y) for y in el))
    return d[0] < d[1] if d[0] != d[1] else None


def deep(t, one):
    """resolve the alternatives inside an arithmetic term"""
    from ..engine import T
    if t.op == "phi":
        r = one(t)
        return r if r is not None else t
    if t.op == "bin":
        return T("bin", t.args[0], deep(t.args[1], one),
                 deep(t.args[2], one))
    return t


def elements(prog, rep):
    """format_elem: real then imaginary part; one number if real"""
    fi = find(prog, CO, "format_elem")
    if fi is None:
        rep.unsure("parts", CO, "", "format_elem not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(fi)
    for t, path in resolve(res.term, lambda c: None):
        if t.op != "obj":
            rep.unsure("parts", fi, loc(fi), show(t)[:100])
            continue
        ps = [part_of(en[2]) for en in eng.contents_log.get(t, ())]
        cplx = None
        for c, pol in path:
            if c.op == "call" and short(c.args[0]) == "iscomplexobj":
                cplx = pol
        if cplx is None:
            rep.unsure("parts", fi, loc(fi), "condition")
            continue
        ok = ps == (["real", "imag"] if cplx else [None])
        rep.ob("parts", fi, ok, loc(fi), "" if ok else "a %s number is "
               "written as %s" % ("complex" if cplx else "real", ps))


# -- CITI --------------------------------------------------------------------

def citi_read(prog, rep):
    rule = "citi-pairs"
    fi = find(prog, CI, "handle_data")
    if fi is None:
        rep.unsure(rule, CI, "", "handle_data not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(fi)
    typ = fi.params[1]
    F = FORMS()
    for kind, want in (("MAG", A("a")), ("RI", F["RI"]),
                       ("MAGANGLE", F["MA"])):
        def assume(c):
            if c.op == "cmp" and c.args[0] in ("Eq", "NotEq") and any(
                    x.op == "param" and x.args[0] == typ
                    for x in c.args[1:]):
                k = [const_str(x) for x in c.args[1:] if const_str(x)]
                if k:
                    return (k[0] == kind) == (c.args[0] == "Eq")
            return None
        got = [t for t, p in resolve(res.term, assume) if not p]
        if len(got) != 1 or got[0].op != "obj":
            rep.unsure(rule, fi, loc(fi), kind)
            continue
        for en in eng.contents_log.get(got[0], ()):
            def leaf(t):
                if t.op == "elem":
                    return A("a")
                if t.op == "sub" and is_const(t.args[1]) and \
                        cval(t.args[1]) in (0, 1) and any(
                            x.op == "elem" for x in walk(t.args[0])):
                    return A("ab"[cval(t.args[1])])
                return None
            form(prog, rep, rule, fi, loc(fi), en[2], leaf, want, kind)


def decl(rep, eng):
    """yielded lines: {first word: [(event, format, args)]}"""
    out = {}
    for e in eng.events:
        if e.kind != "yield":
            continue
        for x in arms(e.val):
            s, args, _ = percent(x)
            if s is None:
                s, args = const_str(x), []
            if s:
                out.setdefault(s.split()[0] if s.split() else s, []).append(
                    (e, s, args))
            else:
                out.setdefault(None, []).append((e, x, None))
    return out


def cplx_pol(e):
    for c, pol in e.guards:
        if c.op == "call" and short(c.args[0]) == "iscomplexobj":
            return pol
    return None


def citi_write(prog, rep):
    rule = "citi-write"
    fi = find(prog, CI, "format_citi_block")
    if fi is None:
        rep.unsure(rule, CI, "", "format_citi_block not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(*{e.fi for e in eng.events if e.fi is not None})
    d = decl(rep, eng)
    for e, s, args in d.get("DATA", ()):
        pol = cplx_pol(e)
        w = s.split()
        if pol is None or len(w) != 3:
            rep.unsure(rule, fi, e.loc, s)
            continue
        ok = w[2] == ("RI" if pol else "MAG")
        rep.ob(rule, fi, ok, e.loc, "" if ok else "%s data are declared %s" %
               ("complex" if pol else "real", w[2]))
    n = 0
    for e, x, _ in d.get(None, ()):
        pol = cplx_pol(e)
        if pol is None:
            continue
        s, args, fm = percent(x)
        ps = [part_of(a) for a in args or ()]
        if pol:
            n += 1
            f, fa, _ = percent(fm) if fm is not None else (None, None, None)
            ok = ps == ["real", "imag"]
            rep.ob(rule, fi, ok, e.loc, "" if ok else "complex numbers are "
                   "written as %s" % ps)
            if f is not None:
                rep.ob(rule, fi, f.replace(" ", "") == "%s,%s", e.loc, "" if
                       f.replace(" ", "") == "%s,%s" else "the parts are "
                       "separated as in %r" % f)
        else:
            ok = ps == [None]
            rep.ob(rule, fi, ok, e.loc, "" if ok else "real numbers are "
                   "written as %s" % ps)
    if not n:
        rep.unsure(rule, fi, loc(fi), "data lines not recognised")
    name_vs_data(prog, rep, "citi-names", fi, eng)
    same_filter(rep, fi, d, "VAR", "VAR_LIST_BEGIN")
    same_filter(rep, fi, d, "DATA", "BEGIN")


def filt(e):
    out = set()
    for c, pol in e.guards:
        if c.op == "call" and short(c.args[0]) in ("iscomplexobj",
                                                   "ismatrix"):
            continue
        out.add((show(c), pol))
    return out


def base_loop(e):
    return e.node


def same_filter(rep, fi, d, a, b):
    """every declared variable is listed and every listed one declared"""
    rule = "citi-declared"
    if not d.get(a) or not d.get(b):
        rep.unsure(rule, fi, loc(fi), "%s or %s line not found" % (a, b))
        return
    ea, eb = d[a][0][0], d[b][0][0]
    fa, fb = filt(ea), filt(eb)
    if fa == fb:
        rep.holds(rule, fi, ea.loc, "%s and %s" % (a, b))
    elif fa < fb or fb < fa:
        x = (fa - fb) | (fb - fa)
        rep.bad(rule, fi, eb.loc, "variables are %s only if %s" % (
            "listed" if fa < fb else "declared", " and ".join(
                "%s%s" % ("" if p else "not ", c[:120]) for c, p in x)))
    else:
        rep.unsure(rule, fi, ea.loc, "filters differ")


# -- MDIF --------------------------------------------------------------------

def mdif_read(prog, rep):
    rule = "mdif-types"
    m = prog.modules.get(MD)
    g = m and m.syms.get("GetData")
    if not isinstance(g, ClassInfo):
        rep.unsure(rule, MD, "", "GetData not found")
        return
    ph = g.find("parse_header")
    if ph is None:
        rep.unsure(rule, MD, "", "parse_header not found")
        return
    eng, res = run(prog, ph, inline=inl, depth=5, self_cls=g)
    rep.analysed(ph)
    tabs = [x.args[0] for x in walk(res.term) if x.op == "sub" and
            x.args[0].op == "obj"]
    t = table_of(prog, eng, tabs[0]) if tabs else None
    if not t:
        rep.unsure(rule, ph, loc(ph), "table of types")
        return
    want = {"real": "float", "integer": "int", "string": None,
            "complex": "complex"}
    for k, w in want.items():
        v = t.get(k)
        if v is None:
            rep.bad(rule, ph, loc(ph), "type %s is not handled" % k)
            continue
        f = method_of(g, v)
        if f is None:
            rep.unsure(rule, ph, loc(ph), "%s: %s" % (k, show(v)[:80]))
            continue
        rep.analysed(f)
        if w == "complex":
            pair(prog, rep, rule, f)
            continue
        e2, r2 = run(prog, f, inline=inl, depth=4, self_cls=g)
        got = {short(x.args[0]) for x in walk(r2.term) if x.op == "call" and
               short(x.args[0]) in ("float", "int", "complex", "abs",
                                    "round")}
        ok = got == ({w} if w else set())
        rep.ob(rule, f, ok, loc(f), "" if ok else "values of type %s are "
               "converted with %s" % (k, ", ".join(sorted(got)) or "nothing"))
        pops = [c for c in e2.events if c.kind == "call" and
                c.obj.op == "attr" and c.obj.args[1] == "pop"]
        if len(pops) == 1:
            ok = bool(pops[0].args) and is_const(pops[0].args[0]) and \
                cval(pops[0].args[0]) == 0
            rep.ob(rule, f, ok, pops[0].loc, "" if ok else
                   "the value is not taken from the front of the line")


def method_of(g, v):
    for x in walk(v):
        if x.op == "bound" and isinstance(x.args[1], FuncInfo):
            return x.args[1]
        if x.op == "attr" and x.args[0].op == "param":
            return g.find(x.args[1])
        if x.op == "ent" and isinstance(x.args[0], FuncInfo):
            return x.args[0]
    return None


def pair(prog, rep, rule, f):
    n = []

    def nxt(ev, a, k):
        n.append(1)
        return A("ab"[(len(n) - 1) % 2])
    try:
        vs = variants(prog, f, [Obj(f.cls), Opaque("stream")],
                      hooks={"get_real": nxt})
    except Exception as exc:
        rep.unsure(rule, f, loc(f), str(exc))
        return
    for v, _ in vs:
        ok = equal(v, A("a") + I * A("b")) if isinstance(v, RF) else None
        rep.ob(rule, f, ok, loc(f), "" if ok else "a complex value is %r of "
               "the numbers a, b in the file" % (v,))


def mdif_write(prog, rep):
    rule = "mdif-write"
    fi = find(prog, MD, "fmt_mdif_block")
    if fi is None:
        rep.unsure(rule, MD, "", "fmt_mdif_block not found")
        return
    keep = {"format_complex_header", "format_elem"}
    eng, res = run(prog, fi, inline=lambda f: inl(f) and f.name not in keep,
                   depth=5)
    rep.analysed(fi)
    n = 0
    for e in eng.events:
        if e.kind == "call" and short(e.obj) == "format_complex_header":
            n += 1
            for i, want in ((2, "%s(real)"), (3, "%s(complex)")):
                a = e.args[i] if i < len(e.args) else None
                s = const_str(a) if a is not None else None
                rep.ob(rule, fi, None if s is None else s == want, e.loc, ""
                       if s == want else "%s columns are labelled %r" % (
                           "real" if i == 2 else "complex", s))
    if not n:
        rep.unsure(rule, fi, loc(fi), "header not recognised")
    for o, ents in eng.contents_log.items():
        for en in ents:
            if not hasattr(en[2], "op"):
                continue
            for x in walk(en[2]):
                s = const_str(x)
                if s and s.startswith("VAR "):
                    ok = re.match(r"^VAR\s+SWEEP\.%s\(real\) = ", s)
                    rep.ob(rule, fi, bool(ok), loc(fi), "" if ok else
                           "sweep variables are written as %r" % s)


# -- complex pairs, matrices -------------------------------------------------

def cplx(prog, rep):
    rule = "complex-columns"
    fi = find(prog, RB, "make_cplx")
    if fi is None:
        rep.unsure(rule, RB, "", "make_cplx not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(*{e.fi for e in eng.events if e.fi is not None})
    F = FORMS()
    ds = fi.params[0]
    n = 0
    for e in eng.events:
        if e.kind != "store_sub" or e.obj.op != "param" or \
                e.obj.args[0] != ds:
            continue
        ks = []

        def leaf(t):
            if t.op == "sub" and t.args[0].op == "param" and \
                    t.args[0].args[0] == ds:
                c = [const_str(x) for x in walk(t.args[1])
                     if const_str(x) in ("Re", "Im", "Mag", "Arg")]
                if len(c) == 1:
                    ks.append(c[0])
                    return A("b" if c[0] in ("Im", "Arg") else "a")
            return None
        g = {const_str(c.args[1]) for c, p in e.guards
             if p and c.op == "cmp" and c.args[0] == "In" and
             const_str(c.args[1])}
        kind = "RI" if "Re" in g else "MA" if "Mag" in g else None
        if kind is None:
            rep.unsure(rule, fi, e.loc, "condition")
            continue
        n += 1
        form(prog, rep, rule, fi, e.loc, e.val, leaf, F[kind],
             "/".join(sorted(g)))
        dels = {c for x in eng.events if x.kind == "del_sub" and
                x.guards[:1] == e.guards[:1] for y in walk(x.val)
                for c in [const_str(y)] if c in g}
        rep.ob(rule, fi, dels == g, e.loc, "" if dels == g else
               "the columns %s are kept beside the complex variable" %
               ", ".join(sorted(g - dels)))
    if n < 2:
        rep.unsure(rule, fi, loc(fi), "%d conversions" % n)
    # the labels the writer uses
    m = prog.modules.get(RB)
    pat = m and pattern(m, "reg_outerfun")
    fs = find(prog, SP, "format_sp_block")
    if fs is None or not pat:
        rep.unsure(rule, fi, loc(fi), "labels")
        return
    keep = {"format_complex_header", "format_elem", "make_col_from_matrix"}
    eng, _ = run(prog, fs, inline=lambda f: inl(f) and f.name not in keep,
                 depth=4)
    for e in eng.events:
        if e.kind == "call" and short(e.obj) == "format_complex_header":
            for i, want in ((3, "Re"), (4, "Im")):
                s = const_str(e.args[i]) if i < len(e.args) else None
                if s is None:
                    rep.unsure("labels", fs, e.loc, "")
                    continue
                mt = re.match(pat, s.replace("%s", "name"))
                ok = mt is not None and mt.groups()[:2] == (want, "name")
                rep.ob("labels", fs, ok, e.loc, "" if ok else "the reader "
                       "does not take %r for the %s part" % (s, want))


def pattern(m, name):
    """constant regular expression compiled at module level"""
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == name
                for t in s.targets) and isinstance(s.value, ast.Call) and \
                s.value.args:
            try:
                return ast.literal_eval(s.value.args[0])
            except Exception:
                return None
    return None


def matrices(prog, rep):
    """elements named (i, j) are sorted by row, then column, and reshaped to
    (rows, columns)"""
    rule = "matrix-from-elements"
    m = prog.modules.get(RB)
    c = m and m.syms.get("ReadFileFormat")
    fi = c.find("_make_matrix_from_block") if isinstance(c, ClassInfo) \
        else None
    if fi is None:
        rep.unsure(rule, RB, "", "_make_matrix_from_block not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=6)
    rep.analysed(*{e.fi for e in eng.events if e.fi is not None})
    # (row, column, name) entries: row is the first number of the name
    tup = None
    for e in eng.events:
        if e.kind == "mut" and e.name == "append" and e.args and \
                e.args[0].op == "tuple" and len(e.args[0].args) >= 2:
            gs = [group(x) for x in e.args[0].args]
            if gs.count(None) < len(gs):
                tup = (e, gs)
    if tup is None:
        rep.unsure(rule, fi, loc(fi), "element list not recognised")
        return
    srt = [e for e in eng.events if e.kind == "call" and
           short(e.obj) in ("sorted", "sort") and not is_set(e)]
    if not srt:
        rep.bad(rule, fi, tup[0].loc, "elements are put in the matrix in the "
                "order they appear, not sorted by row and column")
    elif any(kwarg(e, "key") is not None or kwarg(e, "reverse") is not None
             for e in srt):
        rep.unsure(rule, fi, srt[0].loc, "sort key")
    else:
        gs = [g for g in tup[1] if g is not None][:2]
        ok = gs == [1, 2] and tup[1][:2] == [1, 2]
        rep.ob(rule, fi, ok, tup[0].loc, "" if ok else "elements are sorted "
               "by group %s of the name first" % (tup[1][0],))
    # which set of indices is which
    sets = {}
    for e in eng.events:
        if e.kind == "mut" and e.name == "add" and e.args and \
                e.args[0].op == "sub" and is_const(e.args[0].args[1]):
            sets[e.obj] = cval(e.args[0].args[1])
    for e in eng.events:
        if e.kind == "store_attr" and e.name == "shape" or \
                e.kind == "call" and short(e.obj) == "reshape":
            v = e.val if e.kind == "store_attr" else (
                e.args[0] if e.args else None)
            if v is None:
                continue
            lens = [x for x in ordered(v) if x.op == "call" and
                    short(x.args[0]) == "len"]
            idx = []
            for x in lens:
                s = [k.args[1] for k in walk(x) if k.op == "sub" and
                     is_const(k.args[1]) and isinstance(
                         cval(k.args[1]), int)]
                idx.append(cval(s[0]) if s else None)
            if len(idx) == 2 and None not in idx:
                ok = idx == sorted(idx) and idx[0] != idx[1]
                rep.ob(rule, fi, ok, e.loc, "" if ok else
                       "the matrix is shaped (columns, rows)")
            else:
                rep.unsure(rule, fi, e.loc, show(v)[:150])
    mdif_matrices(prog, rep)
    regexes(prog, rep)


def ordered(t):
    out = []

    def go(x):
        if x.op == "call" and short(x.args[0]) == "len":
            out.append(x)
            return
        for a in x.args:
            for b in (a if isinstance(a, tuple) else (a,)):
                if hasattr(b, "op"):
                    go(b)
    go(t)
    return out


def is_set(e):
    a = e.args[0] if e.args else None
    return a is not None and a.op == "obj" and a.args[0] == "set"


def group(t):
    """number of the regular expression's group t comes from"""
    g = {cval(x.args[1]) for x in walk(t) if x.op == "sub" and
         is_const(x.args[1]) and x.args[0].op == "call" and
         short(x.args[0].args[0]) == "groups"}
    g |= {cval(x.args[1][0]) - 1 for x in walk(t) if x.op == "call" and
          short(x.args[0]) == "group" and x.args[1] and
          is_const(x.args[1][0]) and isinstance(cval(x.args[1][0]), int)}
    return g.pop() if len(g) == 1 else None


def regexes(prog, rep):
    """the names the writers give to element (1, 2) of S are read as (S, 1,
    2)"""
    rule = "matrix-names"
    for mod, names in ((CI, ["S12"]), (RB, ["S12"])):
        m = prog.modules.get(mod)
        pats = []
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                for s in c.body:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Call) and isinstance(
                                n.func, ast.Attribute) and \
                                n.func.attr == "compile" and n.args:
                            try:
                                pats.append(ast.literal_eval(n.args[0]))
                            except Exception:
                                pass
        if not pats:
            rep.unsure(rule, mod, "", "no pattern")
            continue
        for nm in names:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = [re.match(p, nm) for p in pats]
            got = [g.groups() for g in got if g and len(g.groups()) == 3]
            ok = bool(got) and all(g == ("S", "1", "2") for g in got)
            rep.ob(rule, mod, ok, "", "" if ok else "%s is read as %s" % (
                nm, got))


def mdif_matrices(prog, rep):
    rule = "mdif-matrix"
    m = prog.modules.get(MD)
    c = m and m.syms.get("ReadMDIFFileFormat")
    fi = c.find("make_matrices") if isinstance(c, ClassInfo) else None
    if fi is None:
        rep.unsure(rule, MD, "", "make_matrices not found")
        return
    eng, res = run(prog, fi, inline=inl, depth=6)
    rep.analysed(fi)
    for e in eng.events:
        if e.kind != "call" or short(e.obj) != "make_matrix" or not e.args:
            continue
        src = [x for x in walk(e.args[0]) if x.op == "call" and
               short(x.args[0]) in ("concatenate", "stack", "array")]
        if not src or not src[0].args[1]:
            rep.unsure(rule, fi, e.loc, "source")
            continue
        lst = src[0].args[1][0]
        it, names = None, None
        for en in eng.contents_log.get(lst, ()):
            for x in walk(en[2]):
                s, args, _ = percent(x)
                if args and len(args) == 3:
                    names = args
        if names is None:
            rep.unsure(rule, fi, e.loc, "names")
            continue
        pos = []
        for a in names[1:]:
            if a.op == "sub" and is_const(a.args[1]) and \
                    a.args[0].op == "elem":
                pos.append(cval(a.args[1]))
                it = a.args[0].args[0]
        if pos != [0, 1]:
            # (name, row, column, variable) straight from the header
            swapped = len(pos) == 2 and pos[0] > pos[1]
            rep.ob(rule, fi, False if swapped or len(set(pos)) == 1 and
                   len(names) == 3 and len(pos) == 2 else None, e.loc,
                   "elements are looked up by %s" % (pos,))
            continue
        tg = [[group(y) for y in x.args] for en in
              eng.contents_log.get(it, ()) for x in [en[2]]
              if x.op == "tuple"]
        its = [it]
        for y in its:       # copies of the list keep its order
            for en in eng.contents_log.get(y, ()):
                if en[0] == "ext" and en[2] not in its:
                    its.append(en[2])
            if y.op == "call" and short(y.args[0]) in ("list", "tuple",
                                                       "sorted", "iter"):
                its.extend(z for z in y.args[1] if z not in its)
        srt = [x for x in eng.events if x.kind in ("mut", "call") and (
            x.kind == "mut" and x.name == "sort" and x.obj in its or
            x.kind == "call" and short(x.obj) == "sorted" and x.args and
            x.args[0] in its)]
        copied = any(en[0] == "op:sort" for y in its
                     for en in eng.contents_log.get(y, ()))
        anysort = any(x.kind in ("mut", "call") and (
            x.name == "sort" or short(x.obj) in ("sorted", "sort"))
            for x in eng.events if x.obj is not None)
        if not srt and copied:
            rep.holds(rule, fi, e.loc, "copy of a sorted list")
        elif not srt and anysort and not (it.op == "obj" and
                                        it in eng.contents_log):
            rep.unsure(rule, fi, e.loc, "the list is not known")
        elif not srt:
            rep.bad(rule, fi, e.loc, "elements are put in the matrix in the "
                    "order they appear, not sorted by row and column")
        elif any(kwarg(x, "key") is not None or
                 kwarg(x, "reverse") is not None for x in srt):
            rep.unsure(rule, fi, e.loc, "sort key")
        else:
            rep.holds(rule, fi, e.loc, "sorted by row, column")


# -- digits ------------------------------------------------------------------

def digits(prog, rep):
    """default output formats keep a double"""
    rule = "digits"
    for mod in ("hftools.dataset.arrayobj", "hftools.dataset.dim",
                "hftools.dataset.dataset", CO):
        m = prog.modules.get(mod)
        if m is None:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                    re.match(r"^%[-+0-9]*\.(\d+)[eE]$", n.value):
                d = int(re.match(r"^%[-+0-9]*\.(\d+)", n.value).group(1))
                ok = d >= 16
                rep.ob(rule, mod, ok, "%s:%d" % (m.rel, n.lineno), "" if ok
                       else "the default format %s keeps %d digits of a "
                       "double" % (n.value, d + 1))
