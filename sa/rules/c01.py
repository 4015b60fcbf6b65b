"""Binary operations between arrays align by dimension, never by position."""
from ..algebra import RF
from ..engine import T, alternatives, cval, is_const, subterms
from ..lib import (call, callee, data_src, deps, fname, loc, params_in, run,
                   short, kwarg)
from ..model import AnalysisBroken, Ext, FuncInfo

RULE = (
    "For each arithmetic/logic operator method of the array base class, "
    "followed through its decorator and helpers: on every path on which the "
    "other operand is not established to be a plain number (or to have equal "
    "dims) the operands handed to numpy must both be derived from BOTH "
    "operands' dims (raw self/other there means positional broadcasting); "
    "the result must be the operator of (self, other) in that order, "
    "compared in rational normal form.  The alignment itself: the union "
    "takes the dims of every operand, excluding only already present ones; "
    "shape and axis order of an aligned operand are indexed by the same "
    "matching lookup, per wanted dim, and the result is labelled with the "
    "wanted dims; all dim lookups match on name and class.")
MIN = 30

A = "hftools.dataset.arrayobj:"
OPS = {"add": ("__add__", "__radd__"), "sub": ("__sub__", "__rsub__"),
       "mul": ("__mul__", "__rmul__"),
       "div": ("__truediv__", "__rtruediv__"),
       "pow": ("__pow__", "__rpow__"), "and": ("__and__", "__rand__"),
       "or": ("__or__", "__ror__"), "xor": ("__xor__", "__rxor__"),
       "eq": ("__eq__", None)}
BASE = {"add": "add", "radd": "radd", "sub": "sub", "rsub": "rsub",
        "mul": "mul", "rmul": "mul", "truediv": "div", "div": "div",
        "rtruediv": "rdiv", "rdiv": "rdiv", "pow": "pow", "rpow": "rpow",
        "and": "and", "rand": "and", "or": "or", "ror": "or", "xor": "xor",
        "rxor": "xor", "eq": "eq", "subtract": "sub", "multiply": "mul",
        "divide": "div", "true_divide": "div", "power": "pow",
        "bitwise_and": "and", "logical_and": "and", "bitwise_or": "or",
        "bitwise_xor": "xor", "equal": "eq", "negative": "neg",
        "neg": "neg"}
NUMT = {"builtins.int", "builtins.float", "builtins.complex", "builtins.bool",
        "numbers.Number", "numbers.Complex", "numbers.Real",
        "numbers.Integral", "numpy.number", "numpy.generic", "builtins.long"}


class Undec(Exception):
    pass


def scalar_cond(c, o):
    if c.op == "or":
        return all(scalar_cond(x, o) for x in c.args)
    if c.op == "and":
        return any(scalar_cond(x, o) for x in c.args)
    if c.op == "isinstance":
        ts = c.args[1].args if c.args[1].op == "tuple" else (c.args[1],)
        return o in data_src(c.args[0]) and \
            all(fname(t) in NUMT for t in ts)
    if c.op == "call" and short(c.args[0]) in ("isscalar", "isnumber",
                                               "isrealnumber") and c.args[1]:
        return o in data_src(c.args[1][0])
    if c.op == "phi":
        # phi(c ? True : False)
        if is_const(c.args[1]) and cval(c.args[1]) is True and \
                is_const(c.args[2]) and cval(c.args[2]) is False:
            return scalar_cond(c.args[0], o)
    return False


def same_dims_cond(eng, c):
    if c.op == "and":
        return any(same_dims_cond(eng, x) for x in c.args)
    if c.op == "cmp" and c.args[0] in ("Eq", "Is"):
        def dimsof(t):
            return t.op == "attr" and t.args[1] in ("dims", "_dims")
        x, y = c.args[1], c.args[2]
        if dimsof(x) and dimsof(y):
            return params_in(deps(eng, x)) | params_in(deps(eng, y)) >= {
                "self", "other"}
    return False


def cases(terms, assume=(), limit=48):
    """Split top-level phis of several terms consistently."""
    def res(t):
        while t.op == "phi":
            for c, p in assume:
                if c is t.args[0]:
                    t = t.args[1] if p else t.args[2]
                    break
            else:
                return t
        return t
    terms = [res(t) for t in terms]
    for t in terms:
        if t.op == "phi":
            if len(assume) > 5:
                yield terms, assume
                return
            for p in (True, False):
                for x in cases(terms, assume + ((t.args[0], p),), limit):
                    yield x
            return
    yield terms, assume


def prim(t):
    """(op, operands) of a primitive numpy operation, or None."""
    if t.op == "call":
        f, args = t.args[0], t.args[1]
        n = fname(f)
        if f.op == "ent" and isinstance(f.args[0], Ext):
            s = n.split(".")[-1].strip("_")
            if n.startswith("numpy.") and s in BASE:
                return BASE[s], args
    return None


def alg(t, S, O):
    if is_const(t) and isinstance(cval(t), (int, float)):
        return RF.const(cval(t))
    p = prim(t)
    ops = None
    if p:
        ops = p
    elif t.op == "bin":
        ops = ({"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div",
                "Pow": "pow", "BitAnd": "and", "BitOr": "or",
                "BitXor": "xor"}.get(t.args[0]), t.args[1:])
    elif t.op == "un" and t.args[0] == "USub":
        ops = ("neg", (t.args[1],))
    elif t.op == "cmp" and t.args[0] == "Eq":
        ops = ("eq", t.args[1:])
    elif t.op == "call" and t.args[0].op == "attr" and \
            t.args[0].args[1].strip("_") in BASE and \
            t.args[0].args[1].startswith("__"):
        ops = (BASE[t.args[0].args[1].strip("_")],
               (t.args[0].args[0],) + t.args[1])
    elif t.op == "call" and t.args[0].op == "ent" and isinstance(
            t.args[0].args[0], FuncInfo) and t.args[0].args[0].cls and \
            t.args[0].args[0].name.strip("_") in BASE:
        ops = (BASE[t.args[0].args[0].name.strip("_")], t.args[1])
    if ops and ops[0]:
        op, xs = ops
        v = [alg1(x, S, O) for x in xs]
        if op.startswith("r"):
            op, v = op[1:], v[::-1]
        if op == "neg":
            return -v[0]
        if len(v) != 2:
            raise Undec
        a, b = v
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "div":
            return a / b
        if op == "pow":
            return RF.atom(("pow", repr(a), repr(b)))
        return RF.atom((op,) + tuple(sorted([repr(a), repr(b)])))
    src = data_src(t)
    if src == {S}:
        return RF.atom("A")
    if src == {O}:
        return RF.atom("B")
    if len(src) == 1:
        u, = src
        if u is not t:
            return alg1(u, S, O)
    raise Undec


def alg1(t, S, O):
    out = None
    srcs = set()
    for a in alternatives(t):
        v = alg(a, S, O)
        if out is None:
            out = v
        elif out != v:
            raise Undec
    return out


def expected(op, refl):
    A_, B_ = RF.atom("A"), RF.atom("B")
    x, y = (B_, A_) if refl else (A_, B_)
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op == "mul":
        return x * y
    if op == "div":
        return x / y
    if op == "pow":
        return RF.atom(("pow", repr(x), repr(y)))
    return RF.atom((op,) + tuple(sorted([repr(x), repr(y)])))


def check_operator(prog, rep, H, op, name, refl):
    fi = H.find(name)
    S, O = T("param", "self", "op"), T("param", "other", "op")
    if fi is None:
        av = H.find_attr(name)
        if av is None:
            dyn = any(getattr(n, "func", None) is not None and
                      getattr(n.func, "id", "") == "setattr"
                      for n in __import__("ast").walk(H.module.tree))
            rep.ob("operator-aligned", "_hfarray.%s" % name,
                   None if dyn else False, loc="hftools/dataset/arrayobj.py",
                   detail="not defined by the array class: numpy's positional "
                          "broadcasting is used")
            return
        import ast
        node = av[1]
        # class-body form: __add__ = check_instance(ndarray.__add__)
        if isinstance(node, ast.Call) and node.args:
            f = prog.resolve_expr(H.module, node.func)
            if isinstance(f, FuncInfo):
                eng, t, st = call(prog, f, [T("ent", Ext(
                    "numpy.ndarray." + name))])
                if t.op == "closure":
                    t = eng.call(t, [S, O], [], node, st)
                    judge(rep, eng, t, S, O, H, op, name, refl, f)
                    return
        rep.unsure("operator-aligned", "_hfarray.%s" % name,
                   detail="defined in a form not understood")
        return
    eng, t, st = call(prog, fi, [S, O], types={S: H}, depth=8,
                      inline=lambda f: f.name != "make_fullcomplex_array")
    rep.analysed(fi, *eng.inlined)
    judge(rep, eng, t, S, O, H, op, name, refl, fi)


def judge(rep, eng, t, S, O, H, op, name, refl, fi):
    prims = []
    for e in eng.events:
        if e.kind == "call" and e.res is not None:
            p = prim(e.res)
            if p and len(p[1]) == 2:
                src = frozenset().union(*[data_src(x) for x in p[1]])
                srcp = set()
                for x in p[1]:
                    srcp |= params_in(deps(eng, x, control=False))
                if srcp >= {"self", "other"}:
                    prims.append((e, p))
    status, detail, where = (None, "no numpy operation on both operands "
                             "found", loc(fi))
    for e, (o, xs) in prims:
        for ys, assume in cases(list(xs)):
            gs = list(assume) + list(e.guards)
            if any(p and scalar_cond(c, O) for c, p in gs):
                status = True if status is None else status
                continue
            if any(p and same_dims_cond(eng, c) for c, p in gs):
                status = True if status is None else status
                continue
            miss = [y for y in ys if not params_in(
                deps(eng, y, control=False)) >= {"self", "other"}]
            if miss:
                status, where = False, e.loc
                detail = ("the operand %s reaches numpy unaligned (not "
                          "derived from both operands' dims) when %s"
                          % (miss[0], "; ".join("%s is %s" % (c, p)
                                                for c, p in gs)[:200]
                             or "always"))
                break
            status = True if status is None else status
        if status is False:
            break
    if status is True:
        detail = "%d numpy operation(s), all on aligned operands" % len(prims)
    # value
    want = expected(op, refl)
    st, det = True, ""
    n = 0
    for a in alternatives(t):
        if fname(a).endswith("NotImplemented"):
            continue
        try:
            for ys, assume in cases([a]):
                got = None
                v = value_cases(ys[0], S, O)
                for got in v:
                    n += 1
                    if got != want:
                        st, det = False, "computes %r, not %r" % (got, want)
        except Undec:
            if st is True:
                st, det = None, "value not in normal form: %s" % a
    if n == 0 and st is True:
        st = None
    if status is None and st is True:
        status, detail = True, "delegates to an aligned operator method"
    rep.ob("operator-aligned", "_hfarray.%s" % name, status, where, detail)
    rep.ob("operator-value", "_hfarray.%s" % name, st, loc(fi), det)


def value_cases(t, S, O):
    """Values of a primitive call for each consistent case of its operands."""
    yield alg1(t, S, O)


def check_lookup(prog, rep):
    """Sibling dim lookups: match on both name and class."""
    for cn in ("Dims", "DimsList"):
        ci = prog.cls(A + cn)
        for m in ("__contains__", "get_matching_dim", "matching_index"):
            fi = ci.find(m)
            if fi is None:
                rep.ob("lookup-name-and-class", "%s.%s" % (cn, m), False,
                       detail="lookup missing")
                continue
            eng, res = run(prog, fi, self_cls=ci)
            rep.analysed(fi)
            param = T("param", fi.params[1], fi.fullname)
            hit = 0
            for term, guards, st, node in res.returns:
                if is_const(term) and not cval(term):
                    continue
                if term.op == "phi":
                    guards = list(guards) + [(term.args[0], True)]
                ok_name = ok_cls = False
                for c, p in guards:
                    for s in subterms(eng, c):
                        if s.op == "cmp" and s.args[0] == "Eq" and p:
                            ats = [x for x in s.args[1:]
                                   if x.op == "attr" and
                                   x.args[1] in ("name", "_name")]
                            if len(ats) == 2:
                                ok_name = True
                        if s.op == "isinstance" and p and any(
                                x.op == "attr" and x.args[1] == "__class__"
                                for x in subterms(eng, s.args[1])):
                            ok_cls = True
                        if s.op == "call" and short(s.args[0]) in (
                                "issubclass",) and p:
                            ok_cls = True
                        if s.op == "cmp" and p and s.args[0] in (
                                "Eq", "Is") and all(
                                x.op == "attr" and x.args[1] == "__class__"
                                for x in s.args[1:]):
                            ok_cls = True
                if not guards or not any(
                        subterms(eng, c) & {T("param", fi.params[0],
                                              fi.fullname)}
                        for c, p in guards):
                    # delegated (e.g. any(...) / try get_matching_dim)
                    rep.unsure("lookup-name-and-class", fi, loc(fi, node),
                               "match not guarded in place")
                    hit += 1
                    continue
                hit += 1
                rep.ob("lookup-name-and-class", fi, ok_name and ok_cls,
                       loc(fi, node),
                       "" if ok_name and ok_cls else
                       "a dim matches without comparing %s"
                       % ("name" if not ok_name else "class"))
            if not hit:
                rep.unsure("lookup-name-and-class", fi, loc(fi),
                           "no positive return found")


def check_union(prog, rep):
    fi = prog.func(A + "dims_union")
    eng, res = run(prog, fi)
    rep.analysed(fi)
    ps = T("param", fi.params[0], fi.fullname)
    # the collection the result is made of
    d = deps(eng, res.term)
    colls = [x for x in d if x in eng.contents_log] + \
        [x for x in d if x.op == "call" and fname(x.args[0]).endswith(
            ("DimsList", "Dims"))]
    adds = []
    for e in eng.events:
        if e.kind == "mut" and e.name in ("append", "extend", "insert") and \
                e.obj in d:
            adds.append(e)
    first = [x for x in d if x.op == "attr" and x.args[1] in ("dims", "_dims")]
    rep.ob("union-complete", fi, bool(first) and (bool(adds) or None),
           loc(fi), "dims of the operands do not reach the result"
           if not first else "%d accumulation site(s)" % len(adds))
    for e in adds:
        bad = []
        member = False
        for c, p in e.guards:
            ok = (not p and c.op == "cmp" and c.args[0] == "In")
            if ok:
                member = True
            else:
                bad.append((c, p))
        rep.ob("union-complete", fi.fullname + " site", not bad, e.loc,
               "a dim is left out of the union unless %s" %
               ["%s is %s" % b for b in bad] if bad else
               "only already present dims are skipped")
        # which operands: loop must cover all of a[1:]
        its = [eng.loopiter.get(l) for l in e.loops]
        bad = None
        for it in its:
            if it is None:
                continue
            for s in subterms(eng, it, control=False):
                if s.op == "sub" and s.args[0] is ps and \
                        s.args[1].op == "slice":
                    lo, hi, step = s.args[1].args
                    if not (is_const(lo) and cval(lo) in (None, 0, 1) and
                            is_const(hi) and cval(hi) is None):
                        bad = s
        rep.ob("union-all-operands", fi, bad is None, e.loc,
               "" if bad is None else "loop only covers %s" % bad)


def check_change_shape(prog, rep):
    fi = prog.func(A + "change_shape")
    eng, res = run(prog, fi, inline=lambda f: f.name not in (
        "make_fullcomplex_array", "transpose", "matching_index",
        "dims_has_complex", "get_matching_dim"))
    rep.analysed(fi)
    X = T("param", fi.params[0], fi.fullname)
    N = T("param", fi.params[1], fi.fullname)
    ret = res.term
    # dims of the result
    dimv = []
    for e in eng.events:
        if e.kind in ("store_attr", "set_prop") and e.name in (
                "dims", "_dims"):
            dimv.append((e, e.val))
    for x in alternatives(ret):
        if x.op == "call":
            v = kwarg(x, "dims", 1)
            if v is not None:
                dimv.append((None, v))
    if dimv:
        e, v = dimv[-1]
        d = params_in(deps(eng, v, control=False))
        rep.ob("aligned-dims-are-wanted", fi, fi.params[1] in d,
               e.loc if e else loc(fi),
               "" if fi.params[1] in d else
               "the aligned array is labelled with %s, not the wanted dims"
               % v)
    else:
        rep.unsure("aligned-dims-are-wanted", fi, loc(fi), "no dims store")

    def lookups(t):
        """Index lookups of a wanted dim in x.dims inside t."""
        out = set()
        for s in deps(eng, t):
            if s.op == "call" and short(s.args[0]) in (
                    "matching_index", "index", "dims_index"):
                out.add(s)
        return out
    order, shape = None, None
    for e in eng.events:
        if e.kind == "call" and short(e.obj) == "transpose":
            order = (e, e.args)
        if e.kind in ("store_attr",) and e.name == "shape":
            shape = (e, e.val)
        if e.kind == "call" and short(e.obj) == "reshape":
            shape = (e, T("tuple", *e.args))
    if order is None or shape is None:
        rep.unsure("aligned-axes-by-lookup", fi, loc(fi),
                   "no transpose/reshape found")
        return
    ot = T("tuple", *order[1])
    lo = lookups(ot)
    sh = lookups(shape[1])
    ok = bool(lo) and all(
        params_in(deps(eng, l)) >= set(fi.params[:2]) for l in lo)
    rep.ob("aligned-axes-by-lookup", fi.fullname + " order", ok, order[0].loc,
           "" if ok else "the axis order is not looked up per wanted dim in "
           "x.dims: %s" % ot)
    used = {s for s in deps(eng, shape[1])
            if s.op == "sub" and s.args[0].op == "attr" and
            s.args[0].args[1] == "shape"}

    def direct(ix):
        return any(short(a.args[0]) in ("matching_index", "index",
                                        "dims_index")
                   for a in alternatives(ix) if a.op == "call")
    bad = [s for s in used if not lookups(s.args[1]) or not (
        direct(s.args[1]) or s.args[1].op in ("elem", "sub", "loop", "key"))]
    rep.ob("aligned-axes-by-lookup", fi.fullname + " shape",
           bool(used) and not bad, shape[0].loc,
           "" if used and not bad else
           "axis length taken at %s, not at the matched axis"
           % (bad[0].args[1] if bad else "nothing"))
    extra = {l for s in used for l in lookups(s.args[1])} - lo
    rep.ob("shape-and-order-agree", fi, not extra, shape[0].loc,
           "" if not extra else "shape uses lookup %s which the order does "
           "not" % list(extra)[0])
    # missing dims become length-1 axes
    ones = [s for s in deps(eng, shape[1]) if is_const(s) and cval(s) == 1]
    rep.ob("missing-dim-length-one", fi, bool(ones), shape[0].loc,
           "" if ones else "dims the operand lacks do not become axes of "
           "length one")


def check(prog, rep, tier):
    H = prog.cls(A + "_hfarray")
    for op, (n1, n2) in sorted(OPS.items()):
        check_operator(prog, rep, H, op, n1, False)
        if n2:
            check_operator(prog, rep, H, op, n2, True)
    check_lookup(prog, rep)
    check_union(prog, rep)
    check_change_shape(prog, rep)
