"""Data blocks keep variables and dimensions consistent."""
from ..axes import dims_base, meth, unwrap_seq
from ..engine import T, alternatives, cval, is_const, show
from ..lib import (deps, fname, leaks, loop_of, is_param, kwarg, loc, resolve, run, short)
from ..model import AnalysisBroken
from .c03 import sub as subt
from .c04 import nodb

RULE = (
    "Store-event pairing on DataBlock: assigning a variable registers every "
    "dimension it uses under the dimension's name; replacing a dimension "
    "replaces it in the table (under its new name, at the old position) and "
    "in every variable; renames, output formats and units of dimensions go "
    "through that replacement; filter, sort, squeeze, interpolate, "
    "remove_rep and hyper store a result for every variable, computed from "
    "that same variable, and apply the same selection term (mask, sort "
    "order) to the values of the dimension and to the axis of that "
    "dimension; names, comments and x name are carried over; matrix element "
    "names address element (i, j) consistently for reading, writing and "
    "expanding.")
MIN = 20
M = "hftools.dataset.dataset:"
DB = M + "DataBlock"


def runm(prog, name, depth=4):
    fi = prog.cls(DB).methods.get(name)
    if fi is None:
        raise AnalysisBroken("no DataBlock.%s" % name)
    eng, res = run(prog, fi, inline=nodb(prog), depth=depth)
    return fi, eng, res


def check(prog, rep, tier):
    rep.parts(*[(f, (prog, rep)) for f in (
        setitem, replace_dim, arr_replace, rename, formats, units, xforms,
        filter_, sort_, hyper, matrix_names, lookup, elements, subsets)])


def stores(eng):
    """(container, key, value, event)"""
    for e in eng.events:
        if e.kind == "store_sub" and e.key is not None:
            yield e.obj, e.key, e.val, e
        elif e.kind == "call" and short(e.obj) == "__setitem__" and \
                len(e.args) >= 2:
            a = e.args
            o = a[0] if len(a) == 3 else (
                e.obj.args[0] if e.obj.op in ("attr", "bound") else None)
            yield o, a[-2], a[-1], e


def attr_is(t, *names):
    return t is not None and t.op == "attr" and t.args[1] in names


def own(t, name):
    """self.<name>"""
    return attr_is(t, name) and is_param(t.args[0], "self")


def extra_guards(e, allowed):
    """guards of e that are not explained by 'allowed'"""
    return [(c, p) for c, p in e.guards if not allowed(c, p)]


# -- assignment ----------------------------------------------------------------

def setitem(prog, rep):
    fi, eng, res = runm(prog, "__setitem__")
    rep.analysed(fi)
    key, val = fi.params[1:3]
    dimst, varst, regs, repl, elem = [], [], [], [], []
    for o, k, v, e in stores(eng):
        if own(o, "ivardata"):
            if is_param(k, key) and is_param(v, val):
                dimst.append(e)
            elif loop_dim(v, val):
                regs.append((e, k, v))
        elif own(o, "vardata") and is_param(v, val):
            varst.append((e, k))
        elif o is not None and o.op == "sub" and own(o.args[0], "vardata"):
            elem.append((e, o, k, v))
    isdim = [e for e in dimst if any(
        c.op == "isinstance" and p for c, p in e.guards)]
    rep.ob("set-dim", fi, bool(isdim) or None, loc(fi))
    ok = any(is_param(k, key) for _, k in varst)
    rep.ob("set-var", fi, ok if varst else None, loc(fi), "" if ok else
           "the variable is stored under another key")
    # registration of the dims
    rep_loop = [e for e in eng.events if e.kind == "call" and
                short(e.obj) == "replace_dim"]
    if not regs:
        other = any(own(o, "ivardata") for o, k, v, e in stores(eng)
                    if not (is_param(k, key) and is_param(v, val)) and
                    e.fi is fi) or any(
            e.kind in ("call", "mut") and short(e.obj) in (
                "setdefault", "update") or e.kind == "mut" and e.name in (
                    "setdefault", "update") for e in eng.events)
        rep.ob("register-dims", fi, None if other else False, loc(fi),
               "" if other else "the dimensions of a new variable are not "
               "added to the independent variables")
    for e, k, v in regs:
        nm = attr_is(k, "name", "_name") and k.args[0] is v
        rep.ob("register-name", fi, nm or (False if is_param(k) else None),
               e.loc, "" if nm else "a dimension is stored under %s"
               % show(k)[-40:])
        seq = v.args[0]
        part = seq.op == "sub"
        ex = [(c, p) for c, p in e.guards if any(x is v for x in subt(c))]
        bad = [(c, p) for c, p in ex if not present_test(c, p)]
        rep.ob("register-dims", fi, False if part else (
            True if not bad else None), e.loc, "" if not part else
            "only some dimensions are registered: %s" % show(seq)[-50:])
        for c, p in bad:
            if c.op == "isinstance" or c.op == "cmp" and c.args[0] in (
                    "Eq", "NotEq", "Lt", "Gt"):
                rep.bad("register-dims", fi, e.loc, "dimensions with %s%s "
                        "are not registered" % ("not " if p else "",
                                                show(c)[-60:]))
    # values for an existing dimension replace that dimension
    rd = [e for e in eng.events if e.kind == "call" and
          short(e.obj) == "replace_dim" and elem_values(e)]
    cls = [e for e in eng.events if e.kind in ("call", "new") and any(
        k == "data" and is_param(v, val) for k, v in e.kw)]
    if not cls:
        rep.unsure("set-ivar", fi, loc(fi))
    for e in cls:
        g = any(c.op == "cmp" and c.args[0] == "In" and p and
                is_param(c.args[1], key) and own(c.args[2], "ivardata")
                for c, p in e.guards)
        rep.ob("set-ivar", fi, True if g else None, e.loc)
        ok = e.args and any(is_ivar(x, key) for x in alternatives(e.args[0]))
        rep.ob("set-ivar-source", fi, True if ok else None, e.loc)
    # matrix elements
    for e, o, k, v in elem:
        ok = is_param(v, val)
        rep.ob("set-element", fi, ok or None, e.loc)
        elem_index(rep, fi, eng, k, e)


def elem_values(e):
    return e.obj.op == "attr" and e.obj.args[0].op == "elem"


def is_ivar(x, key):
    return x.op == "sub" and own(x.args[0], "ivardata") and \
        is_param(x.args[1], key)


def loop_dim(v, val):
    """an element of value.dims"""
    if v.op != "elem":
        return False
    s = unwrap_seq(v.args[0])
    if s.op == "sub":
        s = s.args[0]
    return s.op == "attr" and s.args[1] in ("dims", "_dims") and \
        is_param(s.args[0], val)


def present_test(c, p):
    return c.op == "cmp" and (c.args[0] == "In" and not p or
                              c.args[0] == "NotIn" and p)


# -- replacing dims --------------------------------------------------------------

def replace_dim(prog, rep):
    fi, eng, res = runm(prog, "replace_dim")
    rep.analysed(fi)
    old, new = fi.params[1:3]
    ren = [e for e in eng.events if e.kind == "call" and
           short(e.obj) == "rename"]
    for e in ren:
        a = e.args[-2:]
        ok = len(a) == 2 and names(a[0], old) and names(a[1], new)
        sw = len(a) == 2 and names(a[0], new) and names(a[1], old)
        rep.ob("replace-rename", fi, True if ok else (False if sw else
                                                      None), e.loc,
               "renames the new name to the old one" if sw else "")
    st = []
    for o, k, v, e in stores(eng):
        if own(o, "ivardata") and mentions(v, new):
            st.append((k, v, e))
    kept = [e for k, v, e in st if names(k, new)]
    wrong = [e for k, v, e in st if names(k, old) and not names(k, new)]
    rep.ob("replace-table", fi, True if kept else (
        False if wrong or not st else None), loc(fi), "" if kept else
        "the new dimension is not stored under its own name")
    dl = [e for e in eng.events if (
        e.kind == "del_sub" and own(e.obj, "ivardata") or
        e.kind in ("call", "mut") and (short(e.obj) == "pop" or
                                       e.name == "pop") and
        any(own(x, "ivardata") for a in [e.obj] + list(e.args)
            if a is not None for x in subt(a)))]
    order = [e for e in eng.events for a in [e.obj] + list(e.args) + [e.val]
             if isinstance(a, T) and any(attr_is(x, "order")
                                         for x in subt(a))]
    if not ren:
        rep.ob("replace-rename", fi, False if dl and not order else None,
               loc(fi), "the replaced dimension moves to the end of the "
               "table" if dl and not order else "")
    for o, k, v, e in stores(eng):
        if own(o, "ivardata") and mentions(v, old) and not mentions(v, new):
            rep.bad("replace-table", fi, e.loc, "the table keeps the old "
                    "dimension")
    # every variable
    loops = [e for e in eng.events if e.kind == "call" and
             short(e.obj) == "replace_dim" and e.fi is fi]
    allv = []
    for e in loops:
        recv = e.obj.args[0] if e.obj.op in ("attr", "bound") else (
            e.args[0] if e.args else None)
        a = e.args[-2:]
        if recv is None:
            continue
        if not any(own(x, "vardata") for x in subt(recv)):
            continue
        allv.append(e)
        ok = mentions(a[0], old) and mentions(a[-1], new)
        rep.ob("replace-vars", fi, ok, e.loc, "" if ok else
               "variables get %s" % ", ".join(show(x)[-40:] for x in a))
        cond = [c for c, p in e.guards if any(x is recv for x in subt(c))]
        cut = [x for x in subt(recv) if x.op == "slice" and any(
            not (is_const(y) and cval(y) is None) for y in x.args)]
        if cut:
            rep.bad("replace-vars", fi, e.loc, "not every variable is "
                    "updated: %s" % show(recv)[-50:])
        for c in cond:
            good = c.op == "cmp" and c.args[0] in ("In", "NotIn")
            rep.ob("replace-vars", fi, None if good else False, e.loc,
                   "" if good else "variables with %s are not updated"
                   % show(c)[-60:])
    if not allv:
        rep.ob("replace-vars", fi, None if any(
            own(x, "vardata") for e in eng.events for a in e.args
            for x in subt(a)) else False, loc(fi), "the variables keep the "
            "old dimension")
    brk = [e for e in eng.events if e.kind == "break" and e.fi is fi]
    for e in brk:
        rep.bad("replace-vars", fi, e.loc, "stops before every variable is "
                "updated")


def names(t, par):
    """t is the name of parameter par (possibly looked up / constructed)"""
    return any(attr_is(x, "name", "_name") and mentions(x.args[0], par)
               for x in alternatives(t)) or any(is_param(x, par)
                                                for x in alternatives(t))


def mentions(t, par):
    return any(is_param(x, par) for x in subt(t))


def arr_replace(prog, rep):
    fi = prog.func("hftools.dataset.arrayobj:replace_dim")
    eng, res = run(prog, fi, depth=3)
    rep.analysed(fi)
    dims, old, new = fi.params[:3]
    from ..axes import dim_entries
    ents = []
    for t in alternatives(res.term):
        ents += dim_entries(eng, t)
    ne = oe = False
    for en in ents:
        if en[0] != "elt":
            continue
        for x, path in resolve(en[1], lambda c: None):
            gs = list(en[2]) + list(path)
            cmpn = [(c, p) for c, p in gs if c.op == "cmp" and any(
                attr_is(y, "name", "_name") for y in c.args[1:])]
            pol = None
            for c, p in cmpn:
                if c.args[0] in ("Eq", "NotEq"):
                    pol = (c.args[0] == "Eq") == p
            if is_param(x, new):
                ne = True
                rep.ob("array-replace", fi, True if pol else (
                    False if pol is False else None), loc(fi),
                    "" if pol is not False else
                    "replaces the dimensions with another name")
            elif x.op == "elem":
                oe = True
                if pol is True:
                    rep.bad("array-replace", fi, loc(fi), "keeps the "
                            "dimension that is to be replaced")
            elif is_param(x, old):
                rep.bad("array-replace", fi, loc(fi), "puts the old "
                        "dimension back")
    if ents and all(en[0] == "elt" for en in ents):
        rep.ob("array-replace-all", fi, True if ne and oe else False,
               loc(fi), "" if ne and oe else "dimensions are dropped")
    else:
        rep.unsure("array-replace-all", fi, loc(fi))
    m = prog.cls("hftools.dataset.arrayobj:_hfarray").methods.get(
        "replace_dim")
    if m is not None:
        e2, r2 = run(prog, m, inline=lambda f: f is not fi and False,
                     depth=2)
        rep.analysed(m)
        st = [e for e in e2.events if e.kind in ("store_attr", "set_prop")
              and e.name in ("dims", "_dims")]
        calls = [e for e in e2.events if e.kind == "call" and
                 short(e.obj) == "replace_dim"]
        ok = bool(st) or None
        rep.ob("array-replace", m, ok if st else (None if calls else False),
               loc(m), "" if st else "the array keeps its dims")
        for e in calls:
            a = e.args[-2:]
            if len(a) == 2:
                sw = mentions(a[0], m.params[2]) and not mentions(
                    a[0], m.params[1])
                rep.ob("array-replace", m.fullname + " args", not sw, e.loc,
                       "old and new dimension are swapped" if sw else "")


def rename(prog, rep):
    fi, eng, res = runm(prog, "rename")
    rep.analysed(fi)
    old, new = fi.params[1:3]
    mk = [e for e in eng.events if e.kind in ("call", "new") and any(
        k == "name" for k, v in e.kw)]
    good = []
    for e in mk:
        v = dict(e.kw)["name"]
        good.append(is_param(v, new))
        g = [(c, p) for c, p in e.guards if c.op == "cmp" and
             own(c.args[2], "ivardata")]
        src = e.args and any(is_ivar(x, old) for x in
                             alternatives(e.args[0]))
        rep.ob("rename-dim", fi, is_param(v, new) or False, e.loc,
               "" if is_param(v, new) else "named %s" % show(v)[-30:])
        rep.ob("rename-dim-source", fi, True if src else None, e.loc)
        if e.obj.op == "ent" and short(e.obj).startswith("D"):
            rep.bad("rename-dim-class", fi, e.loc, "the renamed dimension "
                    "becomes a %s whatever it was" % short(e.obj))
    if not mk:
        rep.unsure("rename-dim", fi, loc(fi))
    rr = [e for e in eng.events if e.kind == "call" and
          short(e.obj) == "rename" and any(own(a, "vardata")
                                           for a in list(e.args) + (
              [e.obj.args[0]] if e.obj.op in ("attr", "bound") else []))]
    for e in rr:
        a = e.args[-2:]
        ok = is_param(a[0], old) and is_param(a[1], new)
        rep.ob("rename-var", fi, True if ok else (
            False if is_param(a[0], new) else None), e.loc)
    if not rr:
        rep.ob("rename-var", fi, None, loc(fi))
    # dimension renames reach the variables
    rv = [e for e in eng.events if e.kind == "call" and short(e.obj) ==
          "replace_dim"]
    rep.ob("rename-vars", fi, True if rv else (False if mk else None),
           loc(fi), "" if rv else "variables keep the dimension's old name")


def formats(prog, rep):
    for fn, par in (("set_outputformat", "format"),):
        fi, eng, res = runm(prog, fn)
        rep.analysed(fi)
        mk = [e for e in eng.events if e.kind in ("call", "new") and
              dict(e.kw).get("outputformat") is not None]
        for e in mk:
            ok = is_param(dict(e.kw)["outputformat"], par)
            rep.ob("format-dim", fi, ok or False, e.loc)
        vs = [e for e in eng.events if e.kind in ("store_attr", "set_prop")
              and e.name == "outputformat"]
        for e in vs:
            rep.ob("format-var", fi, is_param(e.val, par) or False, e.loc)
        rd = [e for e in eng.events if e.kind == "call" and
              short(e.obj) == "replace_dim"]
        if mk:
            rep.ob("format-dim", fi.fullname + " replace", bool(rd), loc(fi),
                   "" if rd else "the variables keep the old dimension")
        raises = [e for e in eng.events if e.kind == "raise" and e.fi is fi]
        rep.ob("format-missing", fi, bool(raises), loc(fi), "" if raises
               else "an unknown name is ignored")
    ci = prog.cls(DB)
    fi = getattr(ci, "setters", {}).get("outputformat")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=nodb(prog), depth=4)
    rep.analysed(fi)
    par = fi.params[1]
    own_ = [e for e in eng.events if e.kind == "store_attr" and
            e.name == "_outputformat" and is_param(e.obj, "self")]
    ok = any(is_param(e.val, par) for e in own_)
    rep.ob("format-block", fi, ok or (False if own_ else None), loc(fi))
    va = [e for e in eng.events if e.kind in ("store_attr", "set_prop",
                                              "call", "mut") and any(
        own(x, "vardata") for o in [e.obj] + list(e.args) if o is not None
        for x in subt(o))]
    rep.ob("format-block-vars", fi, True if va else False, loc(fi),
           "" if va else "the variables keep their output format")
    mk = [e for e in eng.events if e.kind in ("call", "new") and
          dict(e.kw).get("outputformat") is not None]
    for e in mk:
        rep.ob("format-block-dims", fi, is_param(
            dict(e.kw)["outputformat"], par) or False, e.loc)
    rd = [e for e in eng.events if e.kind == "call" and
          short(e.obj) == "replace_dim"]
    st = [e for o, k, v, e in stores(eng) if own(o, "ivardata")]
    rep.ob("format-block-dims", fi.fullname + " replace",
           True if rd else (False if st else None), loc(fi),
           "" if rd else "the variables keep the old dimensions")


def units(prog, rep):
    fi, eng, res = runm(prog, "guess_units", 3)
    rep.analysed(fi)
    mk = [e for e in eng.events if e.kind in ("call", "new") and
          dict(e.kw).get("unit") is not None and e.fi is fi]
    for e in mk:
        rd = [x for x in eng.events if x.kind == "call" and
              short(x.obj) == "replace_dim"]
        rep.ob("unit-dim", fi, bool(rd), e.loc, "" if rd else
               "variables keep the dimension without unit")
    for e in list(mk) + [x for x in eng.events if x.kind in (
            "store_attr", "set_prop") and x.name == "unit" and x.fi is fi]:
        g = [(c, p) for c, p in e.guards if c.op == "cmp" and c.args[0] in (
            "Is", "IsNot", "Eq", "NotEq") and any(
                is_const(x) and cval(x) is None for x in c.args[1:])]
        pos = any((c.args[0] in ("Is", "Eq")) == p for c, p in g)
        neg = any((c.args[0] in ("Is", "Eq")) != p for c, p in g)
        tr = any(not p and attr_is(c, "unit") for c, p in e.guards)
        rep.ob("unit-only-missing", fi, True if pos or tr else (
            False if neg or not any(attr_is(y, "unit", "_unit") or
                                    y.op == "const" and y.args[0] in (
                                        "unit", "_unit")
                                    for c, p in e.guards for y in subt(c))
            else None), e.loc,
            "" if pos or tr else "a known unit is overwritten by a guess")


# -- whole-block transformations ------------------------------------------------

XF = {"filter": ("blockname", "comments", "xname"),
      "sort": ("blockname", "comments", "xname"),
      "squeeze": ("blockname", "comments"),
      "hyper": ("blockname",),
      "keep_variables": ("blockname",),
      "interpolate": (), "remove_rep": ("comments",)}


def is_var_key(eng, k):
    return any(attr_is(x, "vardata") for x in subt(k))


def loops_of(t):
    return {x for x in subt(t) if x.op == "elem"}


def out_block(prog, t):
    return t is not None and (
        t.op == "obj" and getattr(t.args[2] if len(t.args) > 2 else None,
                                  "name", "") == "DataBlock" or
        t.op == "call" and short(t.args[0]) == "DataBlock")


def xforms(prog, rep):
    for name, meta in XF.items():
        fi = prog.cls(DB).methods.get(name)
        if fi is None:
            rep.unsure("every-variable", name)
            continue
        eng, res = run(prog, fi, inline=nodb(prog), depth=4)
        rep.analysed(fi)
        st = [(o, k, v, e) for o, k, v, e in stores(eng) if e.fi is fi or
              out_block(prog, o)]
        st = [x for x in st if out_block(prog, x[0]) or
              attr_is(x[0], "vardata") and out_block(prog, x[0].args[0])]
        var = [x for x in st if is_var_key(eng, x[1])]
        if name == "keep_variables":
            var = st
            for o, k, v, e in var:
                ok = any(x.op == "sub" and x.args[1] is k for x in subt(v))
                rep.ob("same-variable", fi, True if ok else None, e.loc)
        elif not var:
            rep.unsure("every-variable", fi, loc(fi))
        else:
            every(rep, fi, eng, name, var)
        # metadata
        outs = {o if out_block(prog, o) else o.args[0] for o, *_ in st} | {
            x for x in alternatives(res.term) if out_block(prog, x)}
        for m in meta:
            ms = [e for e in eng.events if e.kind in ("store_attr",
                                                      "set_prop") and
                  e.name in (m, "_" + m) and e.obj in outs]
            if not ms:
                rep.bad("carry-" + m, fi, loc(fi), "the result has no %s"
                        % m)
                continue
            rets = [x for x in alternatives(res.term) if out_block(prog, x)]
            lack = [x for x in rets if not any(y.obj is x for y in ms)]
            if lack and not any(x.op == "unk" for x in rets):
                rep.bad("carry-" + m, fi, loc(fi), "a returned block gets no "
                        "%s" % m)
                continue
            e = ms[-1]
            src = any(attr_is(x, m, "_" + m) and is_param(x.args[0], "self")
                      for v in alternatives(e.val) for x in subt(v))
            rep.ob("carry-" + m, fi, True if src else (
                False if is_const(e.val) else None), e.loc, "" if src else
                "%s becomes %s" % (m, show(e.val)[-40:]))
            if m == "xname" and var:
                late = [x[3] for x in var if x[0] is e.obj and
                        x[3].seq > e.seq]
                rep.ob("carry-xname", fi.fullname + " order", not late,
                       e.loc, "" if not late else "storing the variables "
                       "afterwards resets xname")


def every(rep, fi, eng, name, var):
    for o, k, v, e in var:
        cut = [x for x in subt(k) if x.op == "slice" and any(
            not (is_const(y) and cval(y) is None) for y in x.args)]
        if cut:
            rep.bad("every-variable", fi, e.loc, "only some variables are "
                    "handled: %s" % show(k)[-60:])
        own_ = {x for x in subt(k) if x.op == "elem" and any(
            attr_is(y, "vardata") for y in subt(x))}
        mine = any(x in own_ for x in subt(v))
        rep.ob("same-variable", fi, True if mine else (
            None if any(attr_is(y, "vardata") for y in subt(v)) else False),
            e.loc, "" if mine else "%s is stored under a variable's name"
            % show(v)[-60:])
    if any(e.kind == "break" and e.fi is fi for e in eng.events):
        b = [e for e in eng.events if e.kind == "break" and e.fi is fi]
        if any(any(attr_is(x, "vardata") for x in subt(l)) for e in b
               for l in e.loops if isinstance(l, T)) or True:
            rep.ob("every-variable", fi, None, b[0].loc)
    if name == "hyper":
        return
    # some store is reached on every path through the loop body
    mine = [x[3] for x in var if x[3].fi is fi]
    loops = {id(l): l for l in (loop_of(fi.node, e.node) for e in mine)
             if l is not None}
    if len(mine) == len(var) and len(loops) == 1:
        hits = {e.node for e in mine}
        lk = leaks(list(loops.values())[0].body, hits)
        rep.ob("every-variable", fi, not lk, var[0][3].loc, "" if not lk
               else "a path through the loop ending at line %d stores "
               "nothing for the variable" % lk[0].lineno)
        return
    free = [x for x in var if set(x[3].guards) <= pre(eng, fi, x[3])]
    if free:
        rep.holds("every-variable", fi, var[0][3].loc)
        return
    sets = [frozenset((c, p) for c, p in x[3].guards if (c, p) not in
                      pre(eng, fi, x[3])) for x in var]
    ok = covers(sets)
    rep.ob("every-variable", fi, ok, var[0][3].loc, "" if ok is not False
           else "a variable is dropped unless %s" % " or ".join(
               " and ".join("%s%s" % ("" if p else "not ", show(c)[-50:])
                            for c, p in s) for s in sets))


def pre(eng, fi, e):
    """guards that do not depend on the loop"""
    return {g for g in e.guards if not any(x.op == "elem" for x in
                                           subt(g[0]))
            and g[0].op not in ("exc", "except", "raised", "handler")}


def covers(sets):
    """True when the disjunction of the guard sets is a tautology over
    uninterpreted atoms, False when it is not and every atom is simple."""
    atoms = []
    for s in sets:
        for c, p in s:
            if c not in atoms:
                atoms.append(c)
    if len(atoms) > 10:
        return None
    if any(c.op not in ("cmp", "isinstance", "attr", "param", "call", "not",
                        "and", "or") for c in atoms):
        return None
    for i in range(2 ** len(atoms)):
        val = {a: bool(i >> n & 1) for n, a in enumerate(atoms)}
        if not any(all(val[c] == p for c, p in s) for s in sets):
            return False
    return True


# -- filter / sort / hyper ---------------------------------------------------------

def dim_of(t, names_):
    return any(is_param(x, n) for x in subt(t) for n in names_)


def filter_(prog, rep):
    fi, eng, res = runm(prog, "filter")
    mask = fi.params[1]

    def ismask(t):
        return all(is_param(x, mask) or fromvalues(x) for x in
                   alternatives(t))

    def fromvalues(x):
        if x.op == "call" and short(x.args[0]) in ("hfarray", "array",
                                                   "asarray", "in1d",
                                                   "isin", "astype"):
            return any(is_param(y, mask) or attr_is(y, "ivardata")
                       for y in deps(eng, x))
        return False
    # dimension values
    got = 0
    for e in eng.events:
        if e.kind not in ("call", "new"):
            continue
        d = dict(e.kw).get("data")
        if d is None or d.op != "sub":
            continue
        if not any(attr_is(x, "data", "_data") for x in subt(d.args[0])):
            continue
        got += 1
        same = ismask(d.args[1])
        neg = d.args[1].op in ("un", "not") or d.args[1].op == "slice"
        rep.ob("filter-dim", fi, True if same else (False if neg else None),
               e.loc, "" if same else "the dimension keeps %s"
               % show(d.args[1])[-50:])
        cls = attr_is(e.obj, "__class__") or None
        rep.ob("filter-dim-class", fi, cls if e.obj.op != "ent" else False,
               e.loc, "" if e.obj.op != "ent" else
               "the filtered dimension is a %s whatever it was"
               % short(e.obj))
    if not got:
        rep.unsure("filter-dim", fi, loc(fi))
    # variables
    sel = []
    for x in deps_of_stores(prog, eng):
        if x.op == "sub" and ismask(x.args[1]):
            sel.append((x, True))
        elif x.op == "sub" and x.args[1].op == "un" and any(
                ismask(y) for y in subt(x.args[1]) if y is not x.args[1]):
            sel.append((x, False))
        elif x.op == "sub" and x.args[1].op == "slice" and any(
                is_param(y, mask) for y in subt(x.args[1])) and any(
                attr_is(y, "vardata") for y in subt(x.args[0])):
            sel.append((x, False))
        elif x.op == "call" and short(x.args[0]) == "compress":
            sel.append((x, None))
    if not sel:
        rep.unsure("filter-data", fi, loc(fi))
    for x, ok in sel:
        rep.ob("filter-data", fi, ok, loc(fi), "" if ok is not False else
               "the samples outside the mask are kept")
    # bookkeeping lists: the same position is taken out of both
    dels = [e for e in eng.events if e.kind == "del_sub" and e.fi is fi]
    keys = {e.val if e.val is not None else e.key for e in dels}
    if len(dels) >= 2:
        rep.ob("filter-axis", fi, len(keys) == 1, dels[0].loc,
               "" if len(keys) == 1 else "different positions are moved in "
               "the data (%s) and in the dims" % ", ".join(
                   sorted(show(k)[-30:] for k in keys)))
    for k in keys:
        ok = k is not None and k.op == "call" and short(k.args[0]) in (
            "dims_index", "index")
        rep.ob("filter-axis", fi.fullname + " position", True if ok else (
            False if k is not None and is_const(k) else None), loc(fi))
    # the new dim leads the labels, the filtered axis leads the data
    for e in eng.events:
        if e.kind == "call" and short(e.obj) == "hfarray" and e.fi is fi:
            dm = dict(e.kw).get("dims")
            if dm is None:
                continue
            first = heads(eng, dm)
            tr = [y for y in subt(e.args[0]) if y.op == "call" and
                  short(y.args[0]) == "transpose"] if e.args else []
            if not tr:
                continue
            order = [a.args[0] if a.op == "star" else a
                     for a in tr[0].args[1]]
            if order and any(y.op == "call" and short(y.args[0]) == "sorted"
                             for y in subt(order[0])):
                rep.bad("filter-lead", fi, e.loc, "the filtered axis is not "
                        "moved first: axes in order %s"
                        % show(order[0])[-50:])
                continue
            if first is None:
                continue
            fo = heads(eng, order[0]) if order else None
            if fo is None:
                continue
            isnew = first.op in ("call", "obj") and "data" in show(first)
            rep.ob("filter-lead", fi, True if fo in keys else None, e.loc)
    # back to the variable's own order
    ro = [e for e in eng.events if e.kind == "call" and
          short(e.obj) == "reorder_dimensions"]
    tr = [e for e in eng.events if e.kind == "call" and
          short(e.obj) == "transpose"]
    if tr and dels:
        rep.ob("filter-order", fi, True if ro or len(tr) > 1 else False,
               loc(fi), "" if ro or len(tr) > 1 else
               "the variables are left with the filtered axis first")


def heads(eng, t):
    """first element of a list built by concatenation"""
    t = unwrap_seq(t)
    while True:
        if t.op == "bin" and t.args[0] == "Add":
            t = unwrap_seq(t.args[1])
        elif t.op == "tuple" and t.args:
            return t.args[0]
        elif t.op == "obj":
            log = eng.contents_log.get(t, ())
            if not log:
                return None
            if log[0][0] == "app":
                return log[0][2]
            if log[0][0] == "ext":
                t = unwrap_seq(log[0][2])
                continue
            return None
        else:
            return None


def deps_of_stores(prog, eng):
    seen = set()
    for o, k, v, e in stores(eng):
        if out_block(prog, o) and is_var_key(eng, k):
            for x in deps(eng, v, control=False):
                if x not in seen:
                    seen.add(x)
                    yield x


def sort_(prog, rep):
    fi, eng, res = runm(prog, "sort")
    orders = [x for x in deps_of_stores(prog, eng) if x.op == "call" and
              short(x.args[0]) in ("argsort", "lexsort")]
    takes = [x for x in deps_of_stores(prog, eng) if x.op == "call" and
             short(x.args[0]) == "take"]
    if not takes:
        rep.unsure("sort-data", fi, loc(fi))
    used = set()
    for t in takes:
        m = meth(t)
        if m is None:
            continue
        idx = dict(m[3]).get("indices", m[2][0] if m[2] else None)
        ax = dict(m[3]).get("axis", m[2][1] if len(m[2]) > 1 else None)
        if idx is not None:
            used.add(idx)
        if ax is None:
            rep.bad("sort-axis", fi, loc(fi), "the variables are flattened")
            continue
        ok = ax.op == "call" and short(ax.args[0]) in ("dims_index", "index")
        rep.ob("sort-axis", fi, True if ok else (
            False if is_const(ax) else None), loc(fi), "" if ok else
            "variables are sorted along axis %s" % show(ax)[-30:])
    for idx in used:
        plain = idx.op == "call" and short(idx.args[0]) == "argsort"
        rev = idx.op == "sub" and idx.args[1].op == "slice" and is_const(
            idx.args[1].args[2]) and cval(idx.args[1].args[2]) == -1 or \
            idx.op == "un"
        rep.ob("sort-order", fi, True if plain else (
            False if rev else None), loc(fi), "" if plain else
            "samples are ordered by %s" % show(idx)[-50:])
        if plain:
            r = idx.args[0].args[0] if idx.args[0].op in ("attr", "bound") \
                else (idx.args[1][0] if idx.args[1] else None)
            if r is not None:
                neg = r.op == "un" and r.args[0] == "USub"
                rep.ob("sort-key", fi, False if neg else (
                    True if mentions(r, fi.params[1]) else None), loc(fi),
                    "descending order" if neg else "")
    # the dimension gets the same order
    dv = []
    for e in eng.events:
        if e.kind in ("call", "new"):
            d = dict(e.kw).get("data")
            if d is not None and any(
                    x.op == "sub" or x.op == "call" for x in subt(d)) and \
                    e.fi is fi:
                dv.append((d, e))
    if not dv:
        sv = [e for e in eng.events if e.kind == "call" and
              short(e.obj) == "replace_dim"]
        rep.unsure("sort-dim", fi, loc(fi))
    for d, e in dv:
        inx = [x for x in subt(d) if x in used]
        srt = [x for x in subt(d) if x.op == "call" and short(
            x.args[0]) in ("sorted", "sort", "unique", "uniq")]
        rep.ob("sort-dim", fi, True if inx else (
            None if not takes else False),
            e.loc, "" if inx or not takes else "the dimension values are not put "
            "in the order of the data: %s" % show(d)[-60:])
    rd = [e for e in eng.events if e.kind == "call" and
          short(e.obj) == "replace_dim"] or [
        e for o, k, v, e in stores(eng) if attr_is(o, "ivardata")]
    rep.ob("sort-dim", fi.fullname + " replaced", bool(rd), loc(fi),
           "" if rd else "the dimension keeps its order")


def hyper(prog, rep):
    fi, eng, res = runm(prog, "hyper")
    # positions: dims and shape are spliced at the position of the replaced
    # dimension, which is also the axis the data is ordered along
    sh = [e for e in eng.events if e.kind == "store_attr" and
          e.name == "shape"]
    rs = [e for e in eng.events if e.kind == "call" and
          short(e.obj) == "reshape"]
    dm = [e for e in eng.events if e.kind in ("store_attr", "set_prop") and
          e.name == "dims"]
    tk = [x for x in deps_of_stores(prog, eng) if x.op == "call" and
          short(x.args[0]) == "take"]
    axes = set()
    for t in tk:
        m = meth(t)
        ax = dict(m[3]).get("axis", m[2][1] if len(m[2]) > 1 else None) \
            if m else None
        if ax is not None:
            axes.add(ax)
            ok = ax.op == "call" and short(ax.args[0]) in ("dims_index",
                                                           "index")
            rep.ob("hyper-axis", fi, True if ok else (
                False if is_const(ax) else None), loc(fi))
    if not tk and (sh or rs):
        pick = [x for x in deps_of_stores(prog, eng) if x.op == "sub" and
                any(y.op == "call" and fname(y.args[0]) in (
                    "builtins.sorted", "numpy.argsort", "numpy.lexsort")
                    for y in deps(eng, x.args[1], control=False))]
        rep.ob("hyper-axis", fi, None if pick else False, loc(fi),
               "" if pick else "the samples are not put in the order of "
               "the sweep values")
    spl = []
    for e in sh + dm:
        s = splice(e.val)
        if s is not None:
            spl.append((e, s))
    for e, (a, mid, b) in spl:
        plus = b.op == "bin" and b.args[0] == "Add" and a in b.args[1:] and \
            any(is_const(x) and cval(x) == 1 for x in b.args[1:])
        rep.ob("hyper-splice", "%s %s" % (fi.fullname, e.name),
               True if plus else None, e.loc)
        if axes:
            rep.ob("hyper-position", "%s %s" % (fi.fullname, e.name),
                   True if a in axes else (
                       False if is_const(a) else None), e.loc)
    if len(spl) < 2:
        rep.unsure("hyper-splice", fi, loc(fi))
    # order of the sweep lists
    if len(spl) >= 2:
        mids = [s[1] for _, s in spl]
        l0, l1 = [unwrap_seq(x) for x in mids[:2]]
        rev = [any(x.op == "slice" and is_const(x.args[2]) and
                   cval(x.args[2]) == -1 for x in subt(y)) or any(
            x.op == "call" and short(x.args[0]) in ("reversed",)
            for x in subt(y)) for y in (l0, l1)]
        rep.ob("hyper-lists", fi, rev[0] == rev[1], spl[0][0].loc,
               "shape and dims list the sweeps in different order"
               if rev[0] != rev[1] else "")
        keys = [y for e in eng.events if e.kind == "call" and
                fname(e.obj) == "builtins.sorted" for a in e.args
                for y in deps(eng, a, control=False)]
        krev = any(x.op == "slice" and is_const(x.args[2]) and
                   cval(x.args[2]) == -1 for x in keys) or any(
            x.op == "call" and short(x.args[0]) == "reversed" for x in keys)
        if all(rev) and keys and not krev:
            rep.bad("hyper-lists", fi, spl[0][0].loc, "the sweeps are "
                    "listed in another order than the samples are sorted by")
    # sort keys are positions in the very list of values that labels the axis
    mk = [e for e in eng.events if e.kind in ("call", "new") and
          short(e.obj).startswith("Dim") and e.fi is fi and e.loops]
    keyed = [e for e in eng.events if e.kind == "mut" and
             e.name == "append" and e.fi is fi and e.loops]
    lab = None
    for e in mk:
        if len(e.args) > 1:
            lab = e.args[1]
    if lab is None or lab.op != "obj":
        rep.unsure("hyper-key", fi, loc(fi))
    else:
        ok = None
        why = ""
        for e in keyed:
            v = e.args[0]
            if any(x.op == "call" and short(x.args[0]).startswith("Dim")
                   or x.op == "obj" and "Dim" in show(x) for x in [v]):
                continue
            ds = set(deps(eng, v, control=False))
            if any(x.op == "call" and x.args[0].op == "attr" and
                   x.args[0].args[1] == "index" and
                   x.args[0].args[0] is lab for x in ds):
                ok = True
            elif v.op == "sub" and is_param(v.args[0], "self") or \
                    v.op == "obj" and eng.contents_log.get(v) and all(
                        en[2].op == "elem" and en[2].args[0].op == "sub" and
                        is_param(en[2].args[0].args[0], "self")
                        for en in eng.contents_log[v]):
                # ordered by value: labels must be sorted values too
                srt = fname(lab).endswith("sorted")
                ok = ok or False
                why = "the samples are ordered by value, the axis is " \
                    "labelled in order of appearance"
        if ok is False and any(x.op == "call" and fname(x.args[0]) in (
                "builtins.sorted", "numpy.unique") for x in
                deps(eng, lab, control=False)):
            ok, why = True, ""
        rep.ob("hyper-key", fi, ok, loc(fi), why)
    # indices are the last item of the sort tuples
    srt = [e for e in eng.events if e.kind == "call" and
           fname(e.obj) == "builtins.sorted"]
    for e in srt:
        rk = dict(e.kw).get("reverse")
        rep.ob("hyper-sorted", fi, False if rk is not None and is_const(rk)
               and cval(rk) else True, e.loc)


def splice(t):
    """(i, middle, j) of x[:i] + middle + x[j:]"""
    t = unwrap_seq(t)
    if t.op == "call" and t.args[1]:
        t = unwrap_seq(t.args[1][0])
    if not (t.op == "bin" and t.args[0] == "Add"):
        return None
    l, r = t.args[1], t.args[2]
    if not (l.op == "bin" and l.args[0] == "Add"):
        return None
    a, mid = l.args[1], l.args[2]
    if a.op == "sub" and a.args[1].op == "slice" and r.op == "sub" and \
            r.args[1].op == "slice":
        return a.args[1].args[1], mid, r.args[1].args[0]
    return None


# -- matrix element names -----------------------------------------------------------

def elem_index(rep, fi, eng, k, e):
    """index tuple is (Ellipsis,) + element"""
    for x in alternatives(k):
        if x.op == "bin" and x.args[0] == "Add":
            l = x.args[1]
            ok = l.op == "tuple" and len(l.args) == 1 and (
                is_const(l.args[0]) and cval(l.args[0]) is Ellipsis or
                fname(l.args[0]).endswith("Ellipsis"))
            rev = any(y.op == "slice" and is_const(y.args[2]) and
                      cval(y.args[2]) == -1 for y in subt(x.args[2]))
            rep.ob("element-index", fi, False if rev else (
                True if ok else None), e.loc,
                "row and column are swapped" if rev else "")


def matrix_names(prog, rep):
    fi = prog.func(M + "is_matrix_name")
    eng, res = run(prog, fi, depth=3)
    rep.analysed(fi)
    for t in alternatives(res.term):
        if t.op != "tuple" or len(t.args) != 2 or is_const(t.args[0]):
            continue
        el = unwrap_seq(t.args[1])
        if el.op == "obj":
            for en in eng.contents_log.get(el, ()):
                v = en[2]
                ok = v.op == "bin" and v.args[0] == "Sub" and is_const(
                    v.args[2]) and cval(v.args[2]) == 1
                bad = v.op == "call" and short(v.args[0]) == "int" or \
                    v.op == "bin" and not ok
                rep.ob("element-number", fi, True if ok else (
                    False if bad else None), loc(fi), "" if ok else
                    "element numbers become %s" % show(v)[-40:])
                gen = en[4] if len(en) > 4 else ()
                src = [x for x in subt(v) if x.op == "elem"]
                rv = any(y.op == "slice" and is_const(y.args[2]) and
                         cval(y.args[2]) == -1 for x in src
                         for y in subt(x)) or any(
                    y.op == "call" and short(y.args[0]) == "reversed"
                    for x in src for y in subt(x))
                rep.ob("element-number", fi.fullname + " order", not rv,
                       loc(fi), "row and column are swapped" if rv else "")
        else:
            rep.unsure("element-number", fi, loc(fi))


def lookup(prog, rep):
    fi, eng, res = runm(prog, "__getitem__")
    rep.analysed(fi)
    key = fi.params[1]
    rets = [(x, e) for e in eng.events if e.kind == "return" and
            e.fi is fi and e.val is not None for x in alternatives(e.val)]
    ivar = [e for x, e in rets if any(is_ivar(y, key) for y in subt(x))]
    var = [e for x, e in rets if x.op == "sub" and own(x.args[0], "vardata")
           and is_param(x.args[1], key)]
    rep.ob("lookup-ivar", fi, bool(ivar) or None, loc(fi))
    rep.ob("lookup-var", fi, bool(var) or None, loc(fi))
    for x, e in rets:
        if x.op == "sub" and x.args[0].op == "sub" and \
                own(x.args[0].args[0], "vardata"):
            elem_index(rep, fi, eng, x.args[1], e)
    cf, e2, r2 = runm(prog, "__contains__")
    rep.analysed(cf)
    ds = list(deps(e2, r2.term))
    for nm in ("vardata", "ivardata"):
        ok = any(own(x, nm) for x in ds)
        rep.ob("contains", "%s %s" % (cf.fullname, nm), ok, loc(cf),
               "" if ok else "names in %s are not found" % nm)
    conj = any(x.op == "and" and any(y.op == "cmp" for y in x.args)
               for x in [r2.term])
    if conj:
        rep.bad("contains", cf, loc(cf), "a name must be both variable and "
                "dimension")
    df, e3, r3 = runm(prog, "__delitem__")
    rep.analysed(df)
    dl = [e for e in e3.events if e.kind == "del_sub" or e.kind in (
        "call", "mut") and (e.name in ("pop", "__delitem__") or
                            short(e.obj) in ("pop", "__delitem__"))]
    rep.ob("delete", df, bool(dl), loc(df), "" if dl else
           "nothing is deleted")


def elements(prog, rep):
    """convert_matrices_to_elements: name and index agree"""
    fi = prog.func(M + "convert_matrices_to_elements")
    eng, res = run(prog, fi, inline=nodb(prog), depth=3)
    rep.analysed(fi)
    n = 0
    for o, k, v, e in stores(eng):
        if not out_block(prog, o):
            continue
        if v.op != "sub" or v.args[1].op != "tuple":
            if v.op in ("elem", "sub"):
                mine = any(x in loops_of(k) for x in subt(v))
                rep.ob("expand-other", fi, True if mine else None, e.loc)
            continue
        n += 1
        idx = [x for x in v.args[1].args if not (
            is_const(x) and cval(x) is Ellipsis or
            fname(x).endswith("Ellipsis"))]
        nm = list(k.args[1]) if k.op == "call" else [
            x for x in subt(k) if x.op in ("idx", "elem", "bin")]
        lv = []
        for x in idx:
            lv.append([y for y in subt(x) if y.op == "idx"])
        args = []
        if k.op == "call":
            args = [a for a in k.args[1] if any(y.op == "idx"
                                                for y in subt(a))]
        elif k.op == "phi":
            for a in alternatives(k):
                if a.op == "call":
                    args = [b for b in a.args[1] if any(
                        y.op == "idx" for y in subt(b))]
        if len(idx) == 2 and len(args) == 2 and all(lv):
            same = all(any(z is w for z in lv[i] for w in subt(args[i]))
                       for i in (0, 1))
            swap = all(any(z is w for z in lv[i] for w in subt(args[1 - i]))
                       for i in (0, 1))
            rep.ob("expand-index", fi, True if same else (
                False if swap else None), e.loc, "" if same else
                "element (i, j) gets the name of (j, i)")
        else:
            rep.unsure("expand-index", fi, e.loc)
    if not n:
        rep.unsure("expand-index", fi, loc(fi))


def subsets(prog, rep):
    fi = prog.func(M + "subset_datablock_by_dims")
    eng, res = run(prog, fi, inline=nodb(prog), depth=3)
    rep.analysed(fi)
    for o, k, v, e in stores(eng):
        if not out_block(prog, o):
            continue
        mine = loops_of(k) & loops_of(v)
        rep.ob("subset-variable", fi, True if mine else None, e.loc)
    raises = [e for e in eng.events if e.kind == "raise"]
    rep.ob("subset-unique", fi, True if raises else False, loc(fi),
           "" if raises else "repeated dimensions are accepted")
