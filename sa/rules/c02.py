"""Dimensions move in lockstep with the data axes."""
from ..axes import (data_ops, dim_entries, dims_base, labelled, meth, op_arg,
                    unwrap_seq)
from ..engine import T, alternatives, cases, cval, is_const, show, strip
from ..lib import (all_funcs, call, decide, deps, fname, hf_policy,
                   is_array_ctor, is_param, kwarg, loc, run, short)
from ..model import AnalysisBroken

RULE = (
    "Every place that labels an array with dims (constructor with dims, "
    "store to dims) is paired with the operations its data went through.  "
    "A permutation of the data must be matched by dims picked with the same "
    "order term, a squeeze by dims filtered with the same axis numbers, an "
    "index/take by a dimension with the same selection at the same axis, an "
    "inserted axis by an insertion at the same position with the same "
    "length, a reduction that keeps dims by a squeeze of the same axis "
    "numbers; shape-preserving data must keep the dims unchanged.  Dims "
    "lists never lose, reorder or duplicate entries other than that.  The "
    "constructor verifies the number of dims after setting them.")
MIN = 15
A = "hftools.dataset.arrayobj:"
H = A + "_hfarray"


def pol(prog, keep=()):
    hp = hf_policy(prog)

    def inl(fi):
        if fi.name in ("axis_handler", "multiple_axis_handler", "dims_index",
                       "__new__") or fi.name == "__init__":
            return False
        if fi.cls is not None and fi.cls.name.startswith(("Dim", "Diag")):
            return False
        if fi.name in keep:
            return True
        return hp(fi)
    return inl


def strips(t):
    """alternatives of an index term without wrappers"""
    for x in alternatives(t):
        x = strip(x) if x.op == "call" else x
        yield x


def uses(eng, t, what, control=True):
    return any(x is what for x in deps(eng, t, control=control))


def elem_of(t, seq, eng):
    """t is (an alternative of) an element of seq; seq may be a phi."""
    srcs = set(alternatives(seq)) | {seq}
    ok = False
    for x in alternatives(t):
        if x.op == "elem" and (x.args[0] in srcs or unwrap_seq(
                x.args[0]) in {unwrap_seq(s) for s in srcs}):
            ok = True
        else:
            return False
    return ok


def seq_eq(a, b):
    return a is b or unwrap_seq(a) is unwrap_seq(b)


# per-operation rules ---------------------------------------------------------

def perm_ok(eng, X, order, ents):
    """dims entries are [X.dims[i] for i in order]"""
    if len(ents) == 1 and ents[0][0] == "all":
        return False, "the axes are permuted but the dims keep their order"
    if len(ents) == 1 and ents[0][0] == "part":
        sl = ents[0][2]
        rev = is_const(sl.args[2]) and cval(sl.args[2]) == -1
        if order is None and rev:
            return True, ""
        if rev and order is not None:
            return False, "the dims are reversed whatever the axis order is"
        return False, "some dims are dropped by a permutation"
    if len(ents) == 1 and ents[0][0] == "elt":
        v = ents[0][1]
        if v.op == "phi" or v.op != "sub":
            vs = list(alternatives(v))
        else:
            vs = [v]
        res = []
        for v in vs:
            if v.op == "sub" and dims_base(v.args[0]) is not None:
                if order is not None and elem_of(v.args[1], order, eng):
                    if ents[0][2] and any(
                            g[0].op not in ("inloop",) for g in ents[0][2]):
                        res.append(None)
                    else:
                        res.append(True)
                elif order is not None and any(
                        x.op == "call" and x.args[0].op == "attr" and
                        x.args[0].args[1] == "index" and
                        x.args[0].args[0] in set(alternatives(order)) |
                        {order} for x in alternatives(v.args[1])):
                    res.append(False)      # the inverse permutation
                elif order is not None and not any(
                        x.op == "elem" and x.args[0] in set(
                            alternatives(order)) for x in
                        deps(eng, v.args[1], control=False)) and \
                        not uses_any(eng, v.args[1], alternatives(order)):
                    res.append(False)
                else:
                    res.append(None)
            elif v.op == "elem" and dims_base(v.args[0]) is not None:
                res.append(False)
            else:
                res.append(None)
        if all(r is True for r in res):
            return True, ""
        if any(r is False for r in res):
            return False, "the dims are not picked with the order the axes " \
                "are permuted with"
    return None, "dims built in an unknown way"


def uses_any(eng, t, whats):
    ds = set(deps(eng, t))
    return any(w in ds for w in whats)


def check_transpose(prog, rep, fi, eng, D, L, e, ops, base):
    op = ops[-1]
    order = None
    if op[1]:
        a = op[1][0]
        order = a.args[0] if a.op == "star" else a
    ents = dim_entries(eng, L)
    ok, why = perm_ok(eng, base, order, ents)
    rep.ob("permute", "%s" % fi.fullname, ok, e.loc, why)


def filt(ents, eng):
    """the (guards) of a list that filters the dims of X by position"""
    if len(ents) != 1 or ents[0][0] != "elt":
        return None
    v, guards = ents[0][1], ents[0][2]
    if v.op == "elem" and dims_base(v.args[0]) is not None:
        return v.args[0], guards
    if v.op == "sub" and dims_base(v.args[0]) is not None:
        return v.args[0], guards
    return None


def check_squeeze(prog, rep, fi, eng, D, L, e, ops, base):
    axis = op_arg(ops[-1], "axis", 0)
    alts = []
    for x in (alternatives(L) if L.op == "phi" else [L]):
        alts.append((x, dim_entries(eng, x)))
    for i, (x, ents) in enumerate(alts):
        rule = "squeeze"
        name = "%s #%d" % (fi.fullname, i + 1) if i else fi.fullname
        if len(ents) == 1 and ents[0][0] == "all":
            rep.bad(rule, name, e.loc, "axes are squeezed but all dims kept")
            continue
        f = filt(ents, eng)
        if f is None:
            rep.unsure(rule, name, e.loc)
            continue
        src, guards = f
        conds = [(c, p) for c, p in guards if any(
            d.op == "idx" or d.op == "elem" for d in deps(eng, c))]
        ok, why = None, ""
        if not conds:
            ok, why = False, "no dim is removed"
        for c, p in conds:
            if c.op == "cmp" and c.args[0] in ("In", "NotIn"):
                keep_in = (c.args[0] == "In") == p
                who, inn = c.args[1], c.args[2]
                if keep_in:
                    ok, why = False, "keeps the squeezed dims instead of " \
                        "the others"
                    continue
                if who.op == "idx":
                    same = axis is not None and (
                        seq_eq(inn, axis) or any(
                            seq_eq(a, b) for a in alternatives(inn)
                            for b in alternatives(axis)))
                    if same:
                        ok = True
                    elif axis is not None and set(alternatives(inn)) and \
                            not uses_any(eng, axis, alternatives(inn)) and \
                            not any(q.op == "param" and q.args[0] == "axis"
                                    for q in deps(eng, inn)):
                        ok, why = False, "dims are removed by other axis " \
                            "numbers than the data axes"
                elif who.op == "elem":
                    ok = None
            elif c.op == "cmp" and c.args[0] in ("Eq", "NotEq", "Lt", "LtE",
                                                 "Gt", "GtE"):
                o = c.args[0]
                l, r = c.args[1], c.args[2]
                one = l if is_const(l) else r
                oth = r if one is l else l
                size = any(d.op == "attr" and d.args[1] == "shape"
                           for d in deps(eng, oth))
                if not size or not is_const(one):
                    continue
                k = cval(one)
                if o in ("Eq", "NotEq"):
                    keep_ne = (o == "NotEq") == p
                    if k == 1:
                        ok = keep_ne
                    else:
                        ok = False
                elif o == "Lt" and one is l and k == 1 and p:
                    ok = True
                elif o == "Lt" and one is l and k == 0:
                    ok = False
                elif o in ("LtE",) and one is l and k == 1 and p:
                    ok = False
                elif o == "LtE" and one is l and k == 2 and p:
                    ok = None       # drops length 0 too: differs only there
                if ok is False:
                    why = "dims are filtered with %s%s" % (
                        "" if p else "not ", show(c)[-40:])
                # position consistency: shape indexed by own position
                ix = [d for d in deps(eng, oth, control=False)
                      if d.op == "sub" and d.args[0].op == "attr" and
                      d.args[0].args[1] == "shape"]
                for d in ix:
                    if d.args[1].op == "idx" or d.args[1].op == "elem":
                        continue
                    ok = None if ok else ok
        rep.ob(rule, name, ok, e.loc, why)


def check_index(prog, rep, fi, eng, D, L, e, ops, base):
    pass


def check(prog, rep, tier):
    rep.parts(*[(f, (prog, rep)) for f in (
        lockstep, ctor, getitem, take, add_dim, reorder, matrix_t,
        reductions, dims_index, axis_numbers)])


SPECIAL = {"__getitem__", "take", "add_dim", "t", "change_shape",
           "__new__", "expand_dims"}


def lockstep(prog, rep):
    """generic pairing in every function of the packages."""
    inl = pol(prog)
    for fi in all_funcs(prog, "hftools.dataset", "hftools.math",
                        "hftools.networks", "hftools.plotting.helper",
                        "hftools.file_formats"):
        src = fi.module.source_of(fi) if hasattr(fi.module, "source_of") \
            else None
        if fi.name in SPECIAL:
            continue
        if not mentions_dims(fi):
            continue
        try:
            eng, res = run(prog, fi, inline=inl, depth=3)
        except RuntimeError:
            rep.unsure("label", fi, loc(fi), "too large")
            continue
        rep.analysed(fi)
        for D, L, e in labelled(eng):
            if e.fi is not fi and e.fi.parent is not fi:
                continue
            base, ops = data_ops(D)
            ents = dim_entries(eng, L)
            name = "%s -> %s" % (fi.fullname, callee_name(e))
            if ops and ops[-1][0] == "transpose" and len(ops) == 1:
                check_transpose(prog, rep, fi, eng, D, L, e, ops, base)
            elif ops and ops[-1][0] == "squeeze" and len(ops) == 1 and \
                    short_self(D):
                check_squeeze(prog, rep, fi, eng, D, L, e, ops, base)
            elif rev_part(ents):
                tr = any(moves_axes(x) for x in deps(eng, D, control=False))
                rep.ob("label", name, None if tr else False, e.loc,
                       "" if tr else "the dims are reversed, the data axes "
                       "are not")
            elif at_position(ents) is not None:
                replace_at(rep, fi, eng, D, e, at_position(ents))
            elif not ops and len(ents) == 1 and ents[0][0] == "all":
                if ents[0][1] is base or same_array(ents[0][1], base):
                    rep.holds("label", name, e.loc)
            elif not ops and is_arr(base):
                # shape preserved: same number and order of dims
                if len(ents) == 1 and ents[0][0] == "part" and \
                        same_array(ents[0][1], base):
                    sl = ents[0][2]
                    rep.bad("label", name, e.loc, "data keeps its axes but "
                            "is labelled with a part of the dims: %s"
                            % show(L)[:80])


def rev_part(ents):
    for x in ents:
        if x[0] == "part":
            st = x[2].args[2]
            if is_const(st) and isinstance(cval(st), int) and cval(st) < 0:
                return True
            if st.op == "un" and st.args[0] == "USub":
                return True
    return False


def moves_axes(t):
    if t.op == "attr" and t.args[1] in ("T", "t"):
        return True
    m = meth(t)
    return m is not None and m[0] in (
        "transpose", "swapaxes", "rollaxis", "moveaxis", "einsum",
        "reorder_dimensions")


def at_position(ents):
    """(k, elts before, ...) of dims[:k] + (new,) + dims[k + 1:] style lists
    built from the dims of one array with slices at a variable position."""
    parts = [x for x in ents if x[0] == "part"]
    elts = [x for x in ents if x[0] == "elt" and not x[3]]
    if len(parts) != 2 or len(elts) != 1 or len(ents) != 3:
        return None
    if parts[0][1] is not parts[1][1]:
        return None
    lo, hi = parts[0][2].args[1], parts[1][2].args[0]
    if not (is_const(parts[0][2].args[0]) and
            cval(parts[0][2].args[0]) in (None, 0)):
        return None
    if is_const(lo):
        return None
    return lo, hi, [x[0] for x in ents].index("elt")


def replace_at(rep, fi, eng, D, e, pos):
    k, hi, where = pos
    plus1 = hi.op == "bin" and hi.args[0] == "Add" and k in hi.args[1:] and \
        any(is_const(x) and cval(x) == 1 for x in hi.args[1:])
    name = fi.fullname + " replace"
    if not plus1:
        return
    rep.ob("replace-at", name, where == 1, e.loc, "" if where == 1 else
           "the new dim is not put where the old one was")
    for x in deps(eng, D, control=False):
        if x.op != "call":
            continue
        ax = kwarg(x, "axis")
        m = meth(x)
        if ax is None and m is not None and m[0] in ("take", "repeat") and \
                len(m[2]) > 1:
            ax = m[2][1]
        src = any(y is z for y in deps(eng, D, control=False)
                  for z in [x])
        if ax is None or short(x.args[0]) in ("argmax", "any", "argmin",
                                              "all", "sum"):
            continue
        ok = True if ax is k else (False if is_const(ax) else None)
        rep.ob("replace-axis", "%s %s" % (name, short(x.args[0])), ok, e.loc,
               "" if ok else "data is selected along axis %s, the dim at %s "
               "is replaced" % (show(ax)[-40:], show(k)[-40:]))


def mentions_dims(fi):
    import ast
    for n in ast.walk(fi.node):
        if isinstance(n, ast.keyword) and n.arg == "dims":
            return True
        if isinstance(n, ast.Attribute) and n.attr == "dims" and \
                isinstance(n.ctx, ast.Store):
            return True
    return False


def is_arr(t):
    return t.op == "param" and t.args[0] in ("self", "data", "x", "y", "A",
                                             "B", "z", "S")


def same_array(a, b):
    from ..lib import data_src
    return bool(data_src(a) & data_src(b))


def callee_name(e):
    if e.kind == "store_attr" or e.kind == "set_prop":
        return "dims"
    return short(e.obj) or "ctor"


def short_self(D):
    m = meth(D)
    return m is not None


def ctor(prog, rep):
    """number of dims is verified after they are set"""
    fi = prog.cls(H).methods.get("__new__")
    if fi is None:
        rep.unsure("verify", H, "", "no __new__")
        return
    eng, res = run(prog, fi, depth=4)
    rep.analysed(fi)
    sets = [e for e in eng.events if e.kind in ("store_attr", "set_prop")
            and e.name in ("_dims", "dims")]
    chk = []
    for e in eng.events:
        if e.kind != "raise":
            continue
        for c, p in e.guards:
            ds = deps(eng, c)
            if any(x.op == "attr" and x.args[1] in ("ndim", "shape")
                   for x in ds) and any(
                    x.op == "call" and fname(x.args[0]) == "builtins.len"
                    for x in ds):
                chk.append((e, c, p))
    for e in eng.events:
        # a verifying method of the class called on the new array
        if e.kind == "call" and e.obj.op == "attr":
            m = prog.cls(H).find(e.obj.args[1])
            if m is not None and hasattr(m, "node") and verifies(prog, m):
                chk.append((e, None, True))
    last = max([e.seq for e in sets], default=None)
    if last is None:
        rep.unsure("verify", fi, loc(fi), "no store of dims")
        return
    dv = [e.val for e in sets if e.seq == last][0]
    good = []
    for e, c, p in chk:
        if e.seq > last and (c is None or c.op == "cmp" and c.args[0] in (
                "NotEq", "Eq") and (c.args[0] == "NotEq") == p):
            other = [g for g in e.guards if g[0] is not c]
            pre = guards_before(eng, sets, last)
            if all(g in pre for g in other):
                good.append(e)
    part = [e for e, c, p in chk if e.seq > last]
    ok = bool(good)
    rep.ob("verify", fi, ok, loc(fi), "" if ok else
           "an array can be created with another number of dims than axes: "
           "no unconditional check of len(dims) against the number of axes "
           "follows the assignment of the dims")


def verifies(prog, fi):
    """raises exactly when the number of dims is not the number of axes"""
    eng, res = run(prog, fi, depth=3)
    for e in eng.events:
        if e.kind == "raise" and len(e.guards) == 1:
            c, p = e.guards[0]
            ds = deps(eng, c)
            if c.op == "cmp" and c.args[0] in ("Eq", "NotEq") and \
                    (c.args[0] == "NotEq") == p and any(
                        x.op == "attr" and x.args[1] in ("ndim", "shape")
                        for x in ds) and any(
                        x.op == "call" and fname(x.args[0]) ==
                        "builtins.len" for x in ds):
                return True
    return False


def guards_before(eng, sets, last):
    for e in sets:
        if e.seq == last:
            return set(e.guards)
    return set()


# -- indexing -----------------------------------------------------------------

def getitem(prog, rep):
    fi = prog.cls(H).methods.get("__getitem__")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=pol(prog), depth=5)
    rep.analysed(fi)
    SELF = [x for x in [T("param", "self", fi.fullname)]]
    found = {"slice": [], "int": [], "array": [], "other": []}
    lists = {}
    for D, L, e in labelled(eng):
        for ent in dim_entries(eng, L):
            if ent[0] != "elt":
                continue
            v, guards, loops = ent[1:]
            # the dim of the loop and its index
            dimv = [x for x in deps(eng, v, control=False)
                    if x.op == "elem" and dims_base(x.args[0]) is not None]
            idxv = set()
            for c, p in guards:
                if c.op == "isinstance" and c.args[0].op == "elem" and \
                        dims_base(c.args[0].args[0]) is None:
                    idxv.add(c.args[0])
            if not dimv or not idxv:
                continue
            kinds = index_kinds(guards)
            lists.setdefault(L, []).append((v, kinds, dimv, idxv, e))
    n = 0
    for L, items in lists.items():
        for v, kinds, dimv, idxv, e in items:
            n += 1
            sl = kinds.get("slice")
            it = kinds.get("int")
            if it is True:
                rep.bad("index-int", fi, e.loc, "an integer index keeps its "
                        "dim although numpy removes the axis")
                continue
            if it is None and sl is not True:
                rep.bad("index-int", fi, e.loc, "the dim of an integer index "
                        "is not removed")
                continue
            rep.holds("index-int", fi, e.loc)
            if sl is True:
                ok = None
                for a in alternatives(v):
                    if a.op == "sub" and a.args[0] in dimv and \
                            a.args[1] in idxv:
                        ok = True if ok in (None, True) else ok
                    elif a in dimv:
                        ok = False
                    elif a.op == "sub" and a.args[0] in dimv:
                        ok = False
                rep.ob("index-slice", fi, ok, e.loc, "" if ok else
                       "a slice index is not applied to its dimension: %s"
                       % show(v)[-80:])
            elif sl is False:
                # index arrays / lists
                ok = False
                for a in alternatives(v):
                    if by_value(eng, a, idxv):
                        ok = True
                    elif a not in dimv:
                        ok = ok or None
                if any(a.op == "sub" and a.args[0] in dimv and
                       a.args[1].op == "slice"
                       for a in deps(eng, v, control=False)):
                    ok = False
                rep.ob("index-array", fi, ok, e.loc, "" if ok else
                       "an index list does not select the values of its "
                       "dimension: %s" % show(v)[-80:])
            else:
                rep.unsure("index-slice", fi, e.loc)
    if not n:
        rep.unsure("index", fi, loc(fi), "index loop not recognised")
    # zipped lockstep: dims and indices walk the same sequence from the start
    for e in eng.events:
        if e.kind == "call" and fname(e.obj) == "builtins.zip":
            ds = [dims_base(a) for a in e.args]
            if any(d is not None for d in ds):
                rep.holds("index-zip", fi, e.loc)
            else:
                cut = [a for a in e.args if a.op == "sub" and
                       a.args[1].op == "slice" and
                       dims_base(a.args[0]) is not None]
                if cut:
                    rep.bad("index-zip", fi, e.loc, "indices are paired "
                            "with %s" % show(cut[0])[-60:])
    # boolean mask: new dim filtered with the mask itself
    for D, L, e in labelled(eng):
        base, ops = data_ops(D)
        if not ops or ops[-1][0] != "__getitem__":
            continue
        idx = op_arg(ops[-1], "idx", 0)
        for ent in dim_entries(eng, L):
            if ent[0] != "elt":
                continue
            for v in alternatives(ent[1]):
                if v.op == "call" and kwarg(v, "data", 1) is not None and \
                        v.args[1] and v.args[1][0].op in ("sub",):
                    dd = kwarg(v, "data", 1)
                    src = v.args[1][0]
                    mask = None
                    if dd.op == "sub":
                        mask = dd.args[1]
                    if mask is None:
                        rep.bad("index-mask", fi, e.loc,
                                "the masked dim keeps all its values")
                        continue
                    ok = uses(eng, idx, mask) if idx is not None else None
                    own = any(x is src for x in deps(eng, dd.args[0],
                                                     control=False))
                    rep.ob("index-mask", fi, bool(ok and own), e.loc,
                           "" if ok and own else "the new dim is not the "
                           "masked one: %s" % show(dd)[-80:])
    # missing indices are padded with full slices up to ndim, at the end
    pads = pad_terms(eng)
    for op, left, right, node in pads:
        pass


def by_value(eng, t, idxv, n=0):
    """t uses the index itself, not only its length"""
    if t in idxv:
        return True
    if n > 25:
        return False
    if t.op == "call" and fname(t.args[0]) in ("builtins.len",
                                               "numpy.size", "numpy.shape"):
        return False
    if t.op == "attr" and t.args[1] in ("size", "shape"):
        return False
    for a in t.args:
        for x in (a if isinstance(a, tuple) else (a,)):
            if isinstance(x, tuple):
                x = x[-1] if x and isinstance(x[-1], T) else None
            if isinstance(x, T) and by_value(eng, x, idxv, n + 1):
                return True
    return False


def pad_terms(eng):
    return []


def index_kinds(guards):
    out = {}
    for c, p in guards:
        if c.op != "isinstance":
            continue
        nm = show(c.args[1])
        if "slice" in nm:
            out["slice"] = p
        elif "integer_types" in nm or "builtins.int" in nm or \
                "numbers.Integral" in nm or "numpy.integer" in nm:
            out["int"] = p
    return out


# -- take ---------------------------------------------------------------------

def take(prog, rep):
    fi = prog.cls(H).methods.get("take")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=pol(prog), depth=4)
    rep.analysed(fi)
    SELF = T("param", "self", fi.fullname)
    found = False
    for D, L, e in labelled(eng):
        base, ops = data_ops(D)
        if not ops or ops[-1][0] not in ("take", "__getitem__"):
            continue
        op = ops[-1]
        if op[0] != "take":
            rep.unsure("take", fi, e.loc, "not numpy's take")
            continue
        ind = op_arg(op, "indices", 0)
        axis = op_arg(op, "axis", 1)
        if axis is None or is_const(axis) or any(
                c.op == "cmp" and c.args[0] == "Is" and p and
                any(is_const(x) and cval(x) is None for x in c.args[1:])
                for c, p in e.guards):
            continue            # flattened take: one new dim
        found = True
        ents = dim_entries(eng, L)
        sets = [x for x in ents if x[0] in ("set", "ins")]
        alls = [x for x in ents if x[0] == "all"]
        dele = [x for x in ents if x[0] == "del"]
        if len(ents) == 1 and alls:
            rep.bad("take", fi, e.loc, "the dims are not changed although "
                    "values are taken along an axis")
            continue
        if not (len(sets) == 1 and len(alls) == 1 and len(ents) - len(dele)
                == 2):
            rep.unsure("take", fi, e.loc, "dims built in an unknown way")
            continue
        key, val = sets[0][1], sets[0][2]
        ok = key is axis
        rep.ob("take-axis", fi, ok or (False if not uses(eng, key, axis) and
                                       not uses(eng, axis, key) else None),
               e.loc, "" if ok else "the dim at %s is replaced, data is "
               "taken along %s" % (show(key)[-60:], show(axis)[-60:]))
        ds = set(deps(eng, val, control=False))
        if ind not in ds:
            rep.bad("take-values", fi, e.loc, "the new dim does not hold the "
                    "taken values")
            continue
        sel = [x for x in ds if x.op == "sub" and x.args[1] is ind or
               meth(x) is not None and meth(x)[0] == "take" and
               meth(x)[2] and meth(x)[2][0] is ind]
        src = [x for x in ds if x.op == "sub" and
               dims_base(x.args[0]) is not None]
        ok = bool(sel)
        if ok and src:
            ok = all(x.args[1] is axis for x in src) or \
                (False if all(is_const(x.args[1]) for x in src) else None)
        rep.ob("take-values", fi, ok if ok is not False or not sel else ok,
               e.loc, "" if ok else "the new dim is not the taken part of "
               "the dim of that axis: %s" % show(val)[-100:])
    if not found:
        rep.unsure("take", fi, loc(fi))


# -- add_dim ------------------------------------------------------------------

def add_dim(prog, rep):
    fi = prog.cls(H).methods.get("add_dim")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=pol(prog), depth=4)
    rep.analysed(fi)
    dimp = fi.params[1]
    found = False
    for D, L, e in labelled(eng):
        ents = dim_entries(eng, L)
        ins = [x for x in ents if x[0] == "ins"]
        if not (len(ents) == 2 and ents[0][0] == "all" and ins):
            if len(ents) == 1 and ents[0][0] == "all":
                rep.bad("add-dim", fi, e.loc, "the new dim is not in dims")
                found = True
            continue
        found = True
        key, val = ins[0][1], ins[0][2]
        rep.ob("add-dim", fi, is_param(val, dimp) or None, e.loc)
        for x in alternatives(D):
            base, ops = data_ops(x)
            for op in ops:
                if op[0] == "repeat":
                    n = op_arg(op, "repeats", 0)
                    ax = op_arg(op, "axis", 1)
                    ok = ax is key or (None if ax is not None and (
                        uses(eng, ax, key) or uses(eng, key, ax)) else False)
                    rep.ob("add-dim-axis", fi.fullname + " repeat", ok,
                           e.loc, "" if ok else "data is repeated along %s, "
                           "the dim is inserted at %s" % (
                               show(ax)[-40:] if ax is not None else "the "
                               "flattened array", show(key)[-40:]))
                    l = n is not None and any(
                        d.op == "param" and d.args[0] == dimp
                        for d in deps(eng, n))
                    rep.ob("add-dim-length", fi, l, e.loc, "" if l else
                           "the repeat count does not come from the dim")
                elif op[0] in ("__getitem__", "expand_dims"):
                    ix = op[1][0] if op[1] else None
                    if ix is None:
                        continue
                    ok = uses(eng, ix, key)
                    if not ok and not any(
                            d.op == "param" and d.args[0] == "axis"
                            for d in deps(eng, ix)):
                        rep.bad("add-dim-axis", fi.fullname + " newaxis",
                                e.loc, "the new axis is not at the position "
                                "of the new dim")
                    else:
                        rep.ob("add-dim-axis", fi.fullname + " newaxis",
                               ok or None, e.loc)
    if not found:
        rep.unsure("add-dim", fi, loc(fi))


# -- reorder_dimensions ---------------------------------------------------------

def reorder(prog, rep):
    fi = prog.cls(H).methods.get("reorder_dimensions")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=pol(prog), depth=4)
    rep.analysed(fi)
    for t in alternatives(res.term):
        m = meth(t)
        if m is None or m[0] != "transpose":
            rep.unsure("reorder", fi, loc(fi))
            continue
        a = m[2][0] if m[2] else None
        if a is None:
            rep.bad("reorder", fi, loc(fi), "order not passed on")
            continue
        o = unwrap_seq(a.args[0] if a.op == "star" else a)
        if o.op == "bin" and o.args[0] == "Add":
            parts = [unwrap_seq(o.args[1]), unwrap_seq(o.args[2])]
        else:
            parts = [o]
        ents = []
        for p_ in parts:
            if p_.op == "obj":
                for en in eng.contents_log.get(p_, ()):
                    if en[0] == "app":
                        ents.append(en[2])
                    elif en[0] == "ext":
                        ents.append(T("extend", en[2]))
                    else:
                        ents.append(None)
        pname = fi.params[1] if len(fi.params) > 1 else "order"
        firsts = []
        for v in ents:
            if v is None:
                firsts.append("?")
                continue
            ds = set(deps(eng, v, control=False))
            own = [x for x in ds if x.op == "elem"]
            ia = [x.args[1][0] for x in ds if x.op == "call" and x.args[1]
                  and (x.args[0].op == "attr" and
                       x.args[0].args[1] == "index")]
            ia += [x.args[1][-1] for x in ds if x.op == "call" and x.args[1]
                   and short(x.args[0]) == "dims_index"]
            ia = [x for x in ia if not any(
                y is not x and y.op == "elem" and y.args[0].op == "obj" and
                x in deps(eng, y) for y in ia)]
            given = any(y.op == "elem" and is_param(y.args[0], pname)
                        for x in ia for y in alternatives(x)) if ia else \
                any(is_param(x.args[0], pname) for x in own)
            idx = any(x.op == "call" and x.args[0].op == "attr" and
                      x.args[0].args[1] == "index" or
                      x.op == "call" and short(x.args[0]) == "dims_index" or
                      x.op == "idx" for x in ds)
            firsts.append(("given" if given else "rest") if idx else "?")
        if "?" in firsts or not firsts:
            rep.unsure("reorder", fi, loc(fi), "order list not understood")
            continue
        ok = firsts[0] == "given" and "rest" in firsts[1:]
        rep.ob("reorder", fi, ok, loc(fi), "" if ok else
               "the given dims do not come first, followed by the others "
               "(%s)" % firsts)
        # the rest: the dims of self in their order, minus the given ones
        for v in ents:
            for x in deps(eng, v, control=False):
                if x.op == "elem" and x.args[0].op == "call" and \
                        fname(x.args[0].args[0]) in ("builtins.sorted",
                                                     "builtins.reversed",
                                                     "builtins.set"):
                    rep.bad("reorder-rest", fi, loc(fi),
                            "the remaining dims are not kept in order")


# -- matrix transpose -----------------------------------------------------------

def matrix_t(prog, rep):
    fi = prog.cls(H).find("t")
    if fi is None or not hasattr(fi, "node"):
        return
    eng, res = run(prog, fi, inline=pol(prog), depth=4)
    rep.analysed(fi)
    news = []
    for e in eng.events:
        if e.kind in ("call", "new") and short(
                e.obj if e.kind == "call" else e.obj) in ("DimMatrix_i",
                                                          "DimMatrix_j"):
            news.append(e)
    ctor = [e for e in eng.events if e.kind in ("new", "call") and (
        e.kind == "call" and short(e.obj).startswith("DimMatrix"))]
    # which loop variable is the i dim: assigned under isinstance DimMatrix_i
    kind = {}
    for key, (init, ups) in loopvars(eng):
        for u in ups:
            for c, p in phis(u):
                if c.op == "isinstance":
                    pass
    n = 0
    for e in ctor:
        cls = short(e.obj)
        if len(e.args) < 2:
            rep.unsure("t", fi, e.loc)
            continue
        nm, dt = e.args[0], e.args[1]
        rn, rd = root_of(nm), root_of(dt)
        n += 1
        if rn is not None and rd is not None:
            ok = rn is not rd
            rep.ob("t-swap", "%s:%s" % (fi.fullname, cls), ok, e.loc,
                   "" if ok else "the transposed matrix keeps the %s values "
                   "of its own axis" % cls)
        else:
            rep.unsure("t-swap", "%s:%s" % (fi.fullname, cls), e.loc)
    if n < 2:
        rep.unsure("t", fi, loc(fi), "no pair of matrix dims built")
    # the data is transposed with an order that swaps exactly these axes
    tr = [e for e in eng.events if e.kind == "call" and
          short(e.obj) in ("transpose", "swapaxes")]
    ok = bool(tr)
    rep.ob("t-data", fi, ok, loc(fi), "" if ok else
           "the data is not transposed")


def root_of(t):
    if t.op == "attr" and t.args[1] in ("name", "data", "_data", "_name"):
        return t.args[0]
    return None


def loopvars(eng):
    for lid, d in eng.loopinfo.items():
        for k, v in d.items():
            yield k, v


def phis(t):
    if t.op == "phi":
        yield t.args[0], True


# -- reductions -------------------------------------------------------------------

RED = ("sum", "mean", "std", "var", "min", "max")


def reductions(prog, rep):
    ci = prog.cls(H)
    for name in RED:
        fi = ci.methods.get(name)
        if fi is None:
            continue
        eng, res = run(prog, fi, inline=pol(prog), depth=4)
        rep.analysed(fi)
        reds = []
        for e in eng.events:
            if e.kind != "call":
                continue
            m = meth(e.res if e.res is not None and e.res.op == "call" else
                     T("call", e.obj, tuple(e.args), tuple(e.kw)))
            if m and m[0] == name and not is_param(m[1], "self") or \
                    m and m[0] == name and fname(e.obj).startswith("numpy."):
                reds.append((e, m))
        if not reds:
            rep.unsure("reduce", fi, loc(fi), "no numpy reduction found")
            continue
        for e, m in reds:
            axis = None
            for k, v in m[3]:
                if k == "axis":
                    axis = v
            if axis is None and m[2]:
                axis = m[2][0]
            keep = dict(m[3]).get("keepdims")
            if axis is None:
                rep.bad("reduce-axis", fi, e.loc, "the reduction ignores "
                        "axis")
                continue
            handler = [x for x in deps(eng, axis) if x.op == "call" and
                       short(x.args[0]) in ("multiple_axis_handler",
                                            "axis_handler", "dims_index")]
            rep.ob("reduce-axis", fi, bool(handler) or (
                None if not is_param(axis, "axis") else False), e.loc,
                "" if handler else "axis is used without translating "
                "dimension names to axis numbers")
            # the squeeze uses the same axis numbers
            sq = [x for x in eng.events if x.kind == "call" and
                  short(x.obj) == "squeeze"]
            if is_const(keep) if keep is not None else False:
                if cval(keep):
                    got = False
                    for x in sq:
                        ax = dict(x.kw).get("axis")
                        if ax is None:
                            pa = x.args[1:] if fname(x.obj).startswith(
                                "hftools") else x.args
                            ax = pa[0] if pa else None
                        if ax is None:
                            rep.bad("reduce-squeeze", fi, x.loc,
                                    "squeezes every axis of length one, not "
                                    "only the reduced ones")
                            got = True
                            continue
                        ok = seq_eq(ax, axis) or (
                            None if any(h in set(deps(eng, ax))
                                        for h in handler) else False)
                        if ok is None and is_other_result(ax, axis):
                            ok = None
                        got = True
                        rep.ob("reduce-squeeze", fi, ok, x.loc, "" if ok
                               else "squeezes %s, reduced %s"
                               % (show(ax)[-50:], show(axis)[-50:]))
                        g = [c for c, p in x.guards
                             if any(is_param(y, "keepdims")
                                    for y in deps(eng, c))]
                        pol_ = [p if is_param(c, "keepdims") else None
                                for c, p in x.guards
                                if any(is_param(y, "keepdims")
                                       for y in deps(eng, c))]
                        if True in pol_:
                            rep.bad("reduce-squeeze", fi, x.loc,
                                    "keepdims has the opposite effect")
                    if not got:
                        rep.bad("reduce-squeeze", fi, e.loc, "the reduced "
                                "axes are never removed")


def is_other_result(a, b):
    return False


# -- axis lookup --------------------------------------------------------------------

def dims_index(prog, rep):
    fi = prog.cls(H).methods.get("dims_index")
    if fi is None:
        return
    eng, res = run(prog, fi, depth=3)
    rep.analysed(fi)
    bad = []
    n = 0
    rets = [e for e in eng.events if e.kind == "return" and e.val is not None]
    for e in rets:
        for v, gv in cases(e.val):
            if any(len(x.stack) > len(e.stack) and v in alternatives(x.val)
                   for x in rets):
                continue        # judged where the helper returns it
            n += 1
            if v.op == "idx" or any(x.op == "idx" for x in
                                    deps(eng, v, control=False)):
                if v.op != "idx":
                    bad.append("returns %s" % show(v)[:60])
                gs = [c for c, p in tuple(e.guards) + gv
                      if p and c.op == "cmp" and
                      c.args[0] == "Eq" and any(
                          x.op == "attr" and x.args[1] == "name"
                          for x in c.args[1:])]
                if not gs:
                    bad.append("position returned without comparing names")
    rep.ob("dims-index", fi, (not bad) if n else None, loc(fi),
           "; ".join(sorted(set(bad))))


def axis_numbers(prog, rep):
    """multiple_axis_handler: outaxis and outidx are filled in lockstep."""
    try:
        fi = prog.func(A + "multiple_axis_handler")
    except AnalysisBroken:
        rep.unsure("axis-numbers", A + "multiple_axis_handler")
        return
    eng, res = run(prog, fi, inline=pol(prog), depth=4)
    rep.analysed(fi)
    pair = None
    for t in alternatives(res.term):
        if t.op == "tuple" and len(t.args) == 2:
            a, b = [unwrap_seq(x) for x in t.args]
            if a.op == "obj" and b.op == "obj":
                pair = (a, b)
    if pair is None:
        rep.unsure("axis-numbers", fi, loc(fi))
        return
    ca = [en for en in eng.contents_log.get(pair[0], ()) if en[0] == "app"]
    cb = [en for en in eng.contents_log.get(pair[1], ()) if en[0] == "app"]
    for en in ca:
        mate = [x for x in cb if x[3] == en[3]]
        if not mate:
            rep.bad("axis-numbers", fi, loc(fi), "a dimension is selected "
                    "without its axis number: %s" % show(en[2])[-60:])
            continue
        v, i = en[2], mate[0][2]
        ok = None
        for va in alternatives(v):
            if va.op == "elem" and i.op == "idx":
                ok = True
            elif va.op == "sub" and dims_base(va.args[0]) is not None:
                k = va.args[1]
                ok = uses(eng, i, k) or (False if not uses_any(
                    eng, i, list(alternatives(k))) else None)
                # a negative number must be translated
                if is_neg_possible(k):
                    neg = i is not k
                    rep.ob("axis-negative", fi, neg, loc(fi), "" if neg else
                           "a negative axis number is not translated, so "
                           "squeezing and filtering by position miss it")
            elif i.op == "call" and i.args[0].op == "attr" and \
                    i.args[0].args[1] == "index":
                ok = i.args[1][0] is v or seq_eq(i.args[1][0], v) or False
        rep.ob("axis-numbers", fi, ok, loc(fi), "" if ok else
               "dimension %s is paired with axis number %s"
               % (show(v)[-50:], show(i)[-50:]))
    for en in cb:
        if not [x for x in ca if x[3] == en[3]]:
            rep.unsure("axis-numbers", fi, loc(fi))


def is_neg_possible(k):
    return any(x.op == "elem" or x.op == "param" for x in alternatives(k))
