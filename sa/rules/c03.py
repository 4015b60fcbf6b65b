"""Reductions compute numpy's reduction over the named axes with all options
honoured."""
from ..axes import KEEP, REDUCE, meth, unwrap_seq
from ..engine import T, alternatives, cval, is_const, show
from ..lib import (data_src, deps, fname, hf_policy, is_param, loc, resolve,
                   none_assume, run, short)
from ..model import AnalysisBroken
from .c02 import A, H, pol

RULE = (
    "For each of sum, mean, std, var, min, max, cumsum and cumprod: the "
    "numpy reduction of the same name is applied to the data of self; its "
    "axis argument is the axis number obtained from the axis argument by "
    "the axis handler; every accepted option reaches the numpy call as "
    "itself on every path; an axis that is not found raises exactly when "
    "dimerror is true and returns the array itself otherwise; rss is "
    "sqrt(sum(abs(x)**2)) over the given axis.  The axis handlers select "
    "every dimension of a class and raise for absent or ambiguous ones.")
MIN = 40
RED = ("sum", "mean", "std", "var", "min", "max")
CUM = ("cumsum", "cumprod")
NUMPY = {"sum", "mean", "std", "var", "min", "max", "cumsum", "cumprod",
         "prod", "any", "all", "ptp", "argmin", "argmax", "median", "amin",
         "amax", "nansum", "nanmean", "nanstd", "nanvar", "nanmin", "nanmax",
         "average", "nanmedian"}
ALIAS = {"amin": "min", "amax": "max"}
DEFAULT = {"axis": {"RED": None, "CUM": 0}, "dtype": None, "out": None,
           "ddof": 0, "keepdims": False, "dimerror": True}


def npcalls(eng):
    """(event, name, receiver, args, kw) of reductions on plain arrays"""
    for e in eng.events:
        if e.kind != "call":
            continue
        m = meth(e.res if e.res is not None and e.res.op == "call" else
                 T("call", e.obj, tuple(e.args), tuple(e.kw)))
        if m is None or m[0] not in NUMPY:
            continue
        if is_param(m[1], "self") and not fname(e.obj).startswith("numpy."):
            continue
        yield (e,) + m


def opt_ok(v, name):
    """v carries the option 'name' on every path"""
    if v is None:
        return False, "is not passed on"
    bad = []
    for x, path in resolve(v, lambda c: None):
        if is_param(x, name):
            continue
        only = [c for c, p in path if not about(c, name)]
        if is_const(x) and not only:
            # a default filled in for this very option
            if path and any(c.op == "cmp" and c.args[0] in ("Is", "Eq") and p
                            or c.op == "cmp" and c.args[0] in (
                                "IsNot", "NotEq") and not p
                            for c, p in path):
                continue
            bad.append(show(x))
        elif is_const(x):
            bad.append(show(x))
        elif any(is_param(y, name) for y in sub(x)):
            return None, ""
        else:
            bad.append(show(x)[-40:])
    if bad:
        return False, "is replaced by %s" % ", ".join(sorted(set(bad)))
    return True, ""


def sub(t, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        for b in (a if isinstance(a, tuple) else (a,)):
            if isinstance(b, tuple):
                b = b[-1] if b else None
            if isinstance(b, T):
                for x in sub(b, seen):
                    yield x


def about(c, name):
    return any(is_param(x, name) for x in sub(c))


def handler_num(eng, v):
    """v is the axis number(s) of the handler applied to (self, axis)"""
    for x, _ in resolve(v, lambda c: None):
        if x.op == "sub" and x.args[1].op == "slice" and any(
                not is_const(y) or cval(y) is not None
                for y in x.args[1].args) and handler_num(
                    eng, x.args[0])[0]:
            return False, "only some of the named axes are used"
        if x.op == "sub" and is_const(x.args[1]) and cval(x.args[1]) == 0 \
                and handler_num(eng, x.args[0])[0] and \
                x.args[0].op == "sub":
            return False, "only the first of the named axes is used"
        if x.op == "sub" and is_const(x.args[1]) and x.args[0].op == "call" \
                and short(x.args[0].args[0]) == "multiple_axis_handler":
            if cval(x.args[1]) != 1:
                return False, "uses the dims, not the axis numbers"
            h = x.args[0]
        elif x.op == "call" and short(x.args[0]) == "dims_index":
            a = x.args[1][-1] if x.args[1] else None
            hs = [y for y in sub(a) if y.op == "call" and short(
                y.args[0]) in ("axis_handler", "multiple_axis_handler")] \
                if a is not None else []
            if not hs:
                return None, ""
            h = hs[0]
        elif is_const(x):
            return False, "always uses axis %r" % (cval(x),)
        elif is_param(x, "axis"):
            return False, "the axis is not translated to an axis number"
        else:
            return None, ""
        args = list(h.args[1]) + [b for _, b in h.args[2]]
        if not any(is_param(a, "axis") for a in args):
            if any(is_param(y, "axis") for a in args for y in sub(a)):
                return None, ""
            return False, "looks up %s" % ", ".join(
                show(a)[-30:] for a in args)
    return True, ""


def check(prog, rep, tier):
    ci = prog.cls(H)
    for name in RED + CUM:
        fi = ci.methods.get(name)
        if fi is None:
            if ci.find(name) is None:
                rep.unsure("reduce", "%s.%s" % (H, name), "")
            continue
        rep.parts((reduction, (prog, rep, fi, name)))
    rep.parts((rss, (prog, rep, ci)), (handlers, (prog, rep)))


def reduction(prog, rep, fi, name):
    eng, res = run(prog, fi, inline=pol(prog), depth=5)
    rep.analysed(fi)
    one(prog, rep, fi, name, eng, res)
    defaults(rep, fi, name)


def one(prog, rep, fi, name, eng, res):
    calls = list(npcalls(eng))
    same = [c for c in calls if ALIAS.get(c[1], c[1]) == name]
    if not calls:
        rep.unsure("reduce", fi, loc(fi), "no numpy reduction found")
        return
    other = [c for c in calls if c not in same]
    if not same:
        arith = any(x.op == "bin" for x in deps(eng, res.term,
                                                control=False))
        rep.ob("reduce-kind", fi, None if arith else False, calls[0][0].loc,
               "" if arith else "%s computes %s" % (name, calls[0][1]))
        return
    if other:
        # a second, different reduction returned on some path
        for c in other:
            t = c[0].res
            reach = [x for x in alternatives(res.term)]
            if any(produces(x, t) for x in reach):
                rep.bad("reduce-kind", fi, c[0].loc,
                        "%s computes %s on some path" % (name, c[1]))
    rep.holds("reduce-kind", fi, same[0][0].loc)
    for e, n, recv, args, kw in same:
        src = data_src(recv)
        me = [x for x in src if is_param(x, "self")]
        ok = True if me and len(src) == 1 else None
        why = ""
        if ok is None and not any(is_param(y, "self") for x in src
                                  for y in sub(x)):
            ok, why = False, "does not reduce the data of the array"
        elif ok is None:
            for x in src:
                m = meth(x)
                if m is None and x.op == "call" and x.args[1]:
                    m = (short(x.args[0]),)
                if x.op == "attr" and x.args[1] in ("real", "imag") or \
                        m and m[0] in ("abs", "absolute", "real", "imag",
                                       "__abs__", "sort", "unique",
                                       "nan_to_num", "conj", "round"):
                    ok, why = False, "reduces %s, not the array" % show(
                        x)[-40:]
        rep.ob("reduce-data", fi, ok, e.loc, why)
        kwd = dict(kw)
        ax = kwd.get("axis", args[0] if args else None)
        if ax is None:
            rep.bad("reduce-axis", fi, e.loc, "axis is ignored")
        else:
            ok, why = handler_num(eng, ax)
            rep.ob("reduce-axis", fi, ok, e.loc, why)
        order = {"sum": ("axis", "dtype", "out", "keepdims"),
                 "mean": ("axis", "dtype", "out", "keepdims"),
                 "std": ("axis", "dtype", "out", "ddof", "keepdims"),
                 "var": ("axis", "dtype", "out", "ddof", "keepdims"),
                 "min": ("axis", "out", "keepdims"),
                 "max": ("axis", "out", "keepdims"),
                 "cumsum": ("axis", "dtype", "out"),
                 "cumprod": ("axis", "dtype", "out")}[name]
        for o in ("dtype", "out", "ddof"):
            if o not in fi.params:
                continue
            v = kwd.get(o)
            if v is None and o in order and order.index(o) < len(args):
                v = args[order.index(o)]
            if v is None and any(k is None for k, _ in kw):
                rep.unsure("option", "%s %s" % (fi.fullname, o), e.loc)
                continue
            ok, why = opt_ok(v, o)
            rep.ob("option", "%s %s" % (fi.fullname, o), ok, e.loc,
                   "" if ok else "option %s %s" % (o, why))
    if "keepdims" in fi.params:
        keepdims(rep, fi, eng, res, same)
    if "dimerror" in fi.params:
        dimerror(rep, fi, eng, res)
    returns(rep, fi, eng, res, same)


def produces(t, what, n=0):
    """t is 'what' through copies, constructors and squeezes only"""
    while n < 20:
        n += 1
        if t is what:
            return True
        if t.op == "obj":
            return False
        m = meth(t)
        if t.op == "call" and t.args[1] and short(t.args[0]) in (
                "hfarray", "__class__", "squeeze", "asarray", "array"):
            t = t.args[1][0]
            continue
        if m is not None and (m[0] in KEEP or m[0] == "squeeze"):
            t = m[1]
            continue
        return False
    return False


def keepdims(rep, fi, eng, res, same):
    e, n, recv, args, kw = same[0]
    sq = [x for x in eng.events if x.kind == "call" and
          short(x.obj) == "squeeze"]
    v = dict(kw).get("keepdims")
    if v is not None and is_param(v, "keepdims"):
        rep.holds("keepdims", fi, e.loc)
        return
    live = [x for x in sq if any(is_param(y, "keepdims")
                                 for c, p in x.guards for y in sub(c))]
    if v is not None and is_const(v) and cval(v) is True:
        if live:
            pol = {p for x in live for c, p in x.guards
                   if is_param(c, "keepdims")}
            rep.ob("keepdims", fi, True if pol == {False} else (
                None if not pol else False), live[0].loc,
                "" if pol == {False} else "keepdims has the opposite effect")
        elif sq:
            rep.bad("keepdims", fi, sq[0].loc, "keepdims has no effect: the "
                    "reduced axes are always removed")
        else:
            rep.bad("keepdims", fi, e.loc, "the reduced axes are never "
                    "removed")
        return
    if not any(is_param(y, "keepdims") for y in deps(eng, res.term)):
        rep.bad("keepdims", fi, e.loc, "keepdims has no effect")
    else:
        rep.unsure("keepdims", fi, e.loc)


def dimerror(rep, fi, eng, res):
    raises = [e for e in eng.events if e.kind == "raise"]
    t = f = None
    wrong = []
    for e in raises:
        for c, p in e.guards:
            if is_param(c, "dimerror"):
                if p:
                    t = e
                else:
                    wrong.append(e)
    for e in eng.events:
        if e.kind == "return" and e.val is not None:
            for c, p in e.guards:
                if is_param(c, "dimerror"):
                    if not p:
                        f = e
                    else:
                        wrong.append(e)
    if wrong:
        rep.bad("dimerror", fi, wrong[0].loc, "an axis that is not present "
                "raises exactly when dimerror is false")
        return
    if not any(is_param(y, "dimerror") for y in deps(eng, res.term)) and \
            not t and not any(is_param(y, "dimerror") for e in eng.events
                              for c, p in e.guards for y in sub(c)):
        rep.bad("dimerror", fi, loc(fi), "dimerror has no effect")
        return
    if f is None:
        rep.unsure("dimerror", fi, loc(fi))
        return
    same = all(is_param(x, "self") for x in alternatives(f.val))
    src = data_src(f.val)
    ok = True if same else (None if any(is_param(x, "self") for x in src)
                            else False)
    rep.ob("dimerror", fi, ok, f.loc, "" if ok else
           "does not return the array when the axis is not present: %s"
           % show(f.val)[-60:])


def returns(rep, fi, eng, res, same):
    """the returned array is labelled data of the reduction, unscaled"""
    outs = [c[0].res for c in same]
    for x in alternatives(res.term):
        if is_param(x, "self") or is_const(x):
            continue
        ok = any(produces(x, t) for t in outs)
        why = ""
        if not ok:
            ok = None
            b = [y for y in deps(eng, x, control=False) if y.op == "bin" and
                 any(t in set(sub(y)) for t in outs)]
            n = [y for y in deps(eng, x, control=False) if y.op == "call" and
                 fname(y.args[0]) in ("numpy.abs", "numpy.real",
                                      "numpy.negative", "builtins.abs",
                                      "builtins.round", "numpy.round",
                                      "numpy.around")
                 and any(t in set(sub(y)) for t in outs)]
            if b or n:
                ok, why = False, "the reduction is changed afterwards: %s" \
                    % show((b + n)[0])[-80:]
        rep.ob("reduce-result", fi, ok, loc(fi), why)


def defaults(rep, fi, name):
    for o, want in DEFAULT.items():
        if o not in fi.params:
            rep.bad("default", "%s %s" % (fi.fullname, o), loc(fi),
                    "option %s is not accepted" % o) if applicable(
                        name, o) else None
            continue
        d = default(fi, o)
        if isinstance(want, dict):
            want = want["CUM" if name in CUM else "RED"]
        import ast
        try:
            d = ast.literal_eval(d)
        except (ValueError, TypeError):
            rep.unsure("default", "%s %s" % (fi.fullname, o), loc(fi))
            continue
        ok = d == want and type(d) in (type(want), int, bool)
        rep.ob("default", "%s %s" % (fi.fullname, o), ok, loc(fi),
               "" if ok else "default of %s is %r, not %r" % (
                   o, d, want))


def applicable(name, o):
    if o == "axis":
        return True
    if o in ("ddof",):
        return name in ("std", "var")
    if o == "dtype":
        return name not in ("min", "max")
    if o in ("keepdims", "dimerror"):
        return name in RED
    return True


def default(fi, name):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    n = len(pos) - len(a.defaults)
    for i, p in enumerate(pos):
        if p.arg == name and i >= n:
            return a.defaults[i - n]
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name:
            return d
    return None


def rss(prog, rep, ci):
    fi = ci.methods.get("rss")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=pol(prog), depth=4)
    rep.analysed(fi)
    for t in alternatives(res.term):
        ok, why = rss_form(t)
        rep.ob("rss", fi, ok, loc(fi), why)


def power(t):
    """(base, exponent) of a power / sqrt / square, following numpy"""
    if t.op == "bin" and t.args[0] == "Pow" and is_const(t.args[2]):
        return t.args[1], cval(t.args[2])
    if t.op == "bin" and t.args[0] == "Pow" and t.args[2].op == "bin" and \
            t.args[2].args[0] == "Div" and all(
                is_const(x) for x in t.args[2].args[1:]):
        a, b = [cval(x) for x in t.args[2].args[1:]]
        return t.args[1], a / b
    if t.op == "call" and t.args[1]:
        n = short(t.args[0])
        if n == "sqrt":
            return t.args[1][0], 0.5
        if n == "square":
            return t.args[1][0], 2
    if t.op == "bin" and t.args[0] == "Mult" and t.args[1] is t.args[2]:
        return t.args[1], 2
    return None


def rss_form(t):
    p = power(t)
    if p is None:
        m = meth(t)
        if m and m[0] in ("sum", "mean"):
            return False, "no square root of the sum"
        return None, ""
    if p[1] != 0.5:
        return False, "power %r of the sum" % (p[1],)
    m = meth(p[0])
    if m is None:
        return None, ""
    if m[0] != "sum":
        return (False, "uses %s instead of sum" % m[0]) if m[0] in NUMPY \
            else (None, "")
    ax = dict(m[3]).get("axis", m[2][0] if m[2] else None)
    if ax is None:
        return False, "axis is ignored"
    if is_const(ax):
        return False, "axis is ignored"
    q = power(m[1])
    if q is None:
        mm = meth(m[1])
        if mm and mm[0] in ("abs", "absolute"):
            return False, "not squared"
        return None, ""
    if q[1] != 2:
        return False, "power %r" % (q[1],)
    b = q[0]
    isabs = b.op == "call" and short(b.args[0]) in (
        "abs", "absolute", "__abs__") or b.op == "un" and b.args[0] == "abs"
    if not isabs:
        if is_param(b, "self"):
            return False, "squares without taking the magnitude"
        return None, ""
    return True, ""


def handlers(prog, rep):
    for nm in ("axis_handler", "multiple_axis_handler"):
        try:
            fi = prog.func(A + nm)
        except AnalysisBroken:
            rep.unsure("handler", A + nm)
            continue
        eng, res = run(prog, fi, inline=pol(prog), depth=4)
        rep.analysed(fi)
        raises = [e for e in eng.events if e.kind == "raise"]
        idx = [e for e in raises if any(
            fname(x).endswith("IndexError") for x in deps(eng, e.val)
            if x.op == "ent") or e.val is not None and
            "IndexError" in show(e.val)]
        # an absent dimension raises
        absent = [e for e in idx if any(
            c.op == "cmp" and (c.args[0] == "In" and not p or
                               c.args[0] == "NotIn" and p)
            for c, p in flat(e.guards))]
        rep.ob("handler-absent", fi, True if absent else (
            False if not raises else None), loc(fi),
            "" if absent or raises else "an absent dimension does not raise")
        # None selects no particular axis
        none = [x for x, path in resolve(res.term, none_assume(
            {"axis": True})) if not path]
        if none:
            x = none[0]
            want = is_const(x) and cval(x) is None or x.op == "tuple" and \
                all(is_const(y) and cval(y) is None for y in x.args)
            rep.ob("handler-none", fi, want or False, loc(fi),
                   "" if want else "axis=None gives %s" % show(x)[-50:])
        # a dimension class selects every matching dimension
        for o, ents in eng.contents_log.items():
            for en in ents:
                if en[0] != "app":
                    continue
                gs = [c for c, p in en[3] if p and c.op == "isinstance" and
                      c.args[0].op == "elem" and c.args[0] in set(
                          alternatives(en[2]))]
                if not gs:
                    continue
                extra = [c for c, p in en[3] if c not in gs and
                         any(y is en[2] for y in sub(c))]
                rep.ob("handler-class", fi, True if not extra else None,
                       loc(fi))
        for e in eng.events:
            if e.kind == "break":
                if e.loops and any(
                        en[0] == "app" and en[4] and en[4][-1] == e.loops[-1]
                        and any(v.op == "elem" and v.args[0].op == "attr" and
                                v.args[0].args[1] == "dims"
                                for v in alternatives(en[2])) and
                        not any(c.op == "cmp" for c, p in
                                flat(en[3] + e.guards) if any(
                                    y is en[2] for y in sub(c)))
                        for ents in eng.contents_log.values()
                        for en in ents):
                    rep.bad("handler-class", fi, e.loc, "only the first "
                            "matching dimension is selected")
                for c, p in e.guards:
                    if c.op == "isinstance" and p and c.args[0].op == "elem":
                        rep.bad("handler-class", fi, e.loc, "only the first "
                                "matching dimension is selected")
        if nm == "axis_handler":
            ambiguous(rep, fi, eng, res)


def flat(guards):
    for c, p in guards:
        if c.op == "and" and p or c.op == "or" and not p:
            for x in c.args:
                for y in flat(((x, p),)):
                    yield y
        elif c.op == "and" and not p:
            # one of them is false: keep as candidates
            for x in c.args:
                for y in flat(((x, p),)):
                    yield y
        elif c.op == "not":
            for y in flat(((c.args[0], not p),)):
                yield y
        else:
            yield c, p


def ambiguous(rep, fi, eng, res):
    """for a class: one match is returned; none or several raise."""
    got = {}
    for e in eng.events:
        if e.kind not in ("return", "raise"):
            continue
        cnt = [(c, p) for c, p in e.guards if c.op == "cmp" and any(
            x.op == "call" and fname(x.args[0]) == "builtins.len"
            for x in c.args[1:])]
        if not cnt or e.kind == "return" and e.val is None:
            continue
        for n in (0, 1, 2, 3):
            if all(holds(c, n) is None for c, p in cnt):
                continue
            if all(holds(c, n) in (p, None) for c, p in cnt):
                got.setdefault(n, []).append(e)
    if set(got) != {0, 1, 2, 3}:
        rep.unsure("handler-ambiguous", fi, loc(fi))
        return
    want = {0: "raise", 1: "return", 2: "raise", 3: "raise"}
    bad = ["%d matching dims -> %s" % (n, got[n][0].kind) for n in got
           if got[n][0].kind != want[n]]
    rep.ob("handler-ambiguous", fi, not bad, loc(fi), "; ".join(bad))
    r = got[1][0]
    if r.kind == "return":
        for v in alternatives(r.val):
            if v.op == "sub" and is_const(v.args[1]):
                ok = cval(v.args[1]) in (0, -1)
                rep.ob("handler-one", fi, ok, r.loc)


def holds(c, n):
    """truth of a comparison with len(..) for len == n"""
    l, r = c.args[1], c.args[2]
    v = []
    for x in (l, r):
        if x.op == "call" and fname(x.args[0]) == "builtins.len":
            v.append(n)
        elif is_const(x) and isinstance(cval(x), int):
            v.append(cval(x))
        else:
            return None
    a, b = v
    return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b,
            "Gt": a > b, "GtE": a >= b}.get(c.args[0])
