"""What a HDF5 writer stores is what the matching reader restores."""
import ast

from ..engine import cval, is_const, show, subterms
from ..lib import (VIEWS, callee, fname, is_array_ctor, kwarg, loc, run,
                   short)
from ..model import ClassInfo, Ext, FuncInfo

RULE = (
    "The writer and the reader of each HDF5 file version are reduced to a "
    "schema: attribute key -> property of the data set element (unit, "
    "outputformat, dtype, class) per kind of element (dimension, variable), "
    "from the stores into .attrs on the writing side and from the arguments "
    "of the constructors on the reading side. The keys must agree, a "
    "property may be left out only when it is empty, values must reach the "
    "file and the constructors unchanged, names are unescaped by the inverse "
    "of the escaping, dimensions keep their order, and the version stamp "
    "selects the reader of the version that wrote it.")
MIN = 30

PKG = "hftools.file_formats.hdf5"
V = {"0.1": PKG + ".v_01", "0.2": PKG + ".v_02"}
WANT = {"0.1": {"dim": ("class", "unit", "dtype"),
                "var": ("unit", "dtype")},
        "0.2": {"dim": ("class", "unit", "outputformat", "dtype"),
                "var": ("unit", "outputformat", "dtype")}}
CASTS = {"cast_unicode", "cast_bytes", "cast_str", "str", "bytes", "decode",
         "encode", "unicode", "asstr", "lower", "text_type"}
LOSSY = {"real", "imag", "round", "around", "abs", "absolute", "rint",
         "floor", "ceil", "trunc", "fix", "clip", "sort", "unique", "sum",
         "mean", "flip", "fliplr", "flipud", "nan_to_num", "angle",
         "conj", "conjugate", "roll", "fabs"}


def check(prog, rep, tier):
    rep.parts(*[(schema, (prog, rep, v)) for v in sorted(V)])
    rep.parts((dispatch, (prog, rep)), (tables, (prog, rep)))


def inl(fi):
    return fi.module.name.startswith(PKG) and "omments" not in fi.fullname


def find(prog, mod, *names):
    m = prog.modules.get(mod)
    for n in names:
        f = m and m.syms.get(n)
        if isinstance(f, FuncInfo):
            return f
    return None


# -- elements ------------------------------------------------------------------

def const_str(t):
    return cval(t) if is_const(t) and isinstance(cval(t), str) else None


def base_role(b):
    """role of the mapping b (db.ivardata / db.vardata)"""
    if b.op == "attr" and b.args[1] in ("ivardata", "vardata"):
        return "dim" if b.args[1] == "ivardata" else "var"
    if b.op == "call":
        f = b.args[0]
        if f.op == "attr" and f.args[1] in (
                "items", "keys", "values", "iteritems"):
            return base_role(f.args[0])
        if short(f) in ("items", "keys", "values", "list", "sorted", "tuple",
                        "enumerate") and b.args[1]:
            return base_role(b.args[1][0])
    return None


def key_role(k):
    """('dim'|'var'|'expand', ...) set for a key term"""
    if k.op == "phi":
        return key_role(k.args[1]) | key_role(k.args[2])
    if k.op == "call":
        f = k.args[0]
        if f.op == "attr" and f.args[1] in ("replace", "strip", "format",
                                            "encode", "decode", "lower"):
            return key_role(f.args[0])
        if short(f) in CASTS and k.args[1]:
            return key_role(k.args[1][0])
    if k.op == "sub" and is_const(k.args[1]) and cval(k.args[1]) == 0 and \
            k.args[0].op == "elem":
        r = base_role(k.args[0].args[0])
        return {r} if r else set()
    if k.op in ("elem", "key"):
        r = base_role(k.args[0])
        return {r} if r else set()
    if k.op == "attr" and k.args[1] == "name":
        e = k.args[0]
        if e.op == "elem" and e.args[0].op == "attr" and \
                e.args[0].args[1] == "dims":
            return {"dim"}
        return elem_role(e)
    return set()


def peel(t):
    """the array / dimension whose values t carries, one step"""
    if t.op == "attr" and t.args[1] in ("data", "_data", "values"):
        return t.args[0]
    if t.op == "call":
        f, args = t.args[0], t.args[1]
        if is_array_ctor(f):
            return kwarg(t, "data", 0)
        if f.op == "attr" and f.args[1] in VIEWS:
            return f.args[0]
        if f.op == "ent" and args:
            n = fname(f)
            if isinstance(f.args[0], FuncInfo) and short(f) in VIEWS:
                return args[0]
            if n in ("numpy.array", "numpy.asarray", "numpy.asanyarray",
                     "numpy.ascontiguousarray"):
                return args[0]
    return None


def elem_role(t, d=0):
    """the role of the data set element t"""
    if d > 40:
        return set()
    if t.op == "phi":
        return elem_role(t.args[1], d + 1) | elem_role(t.args[2], d + 1)
    if t.op == "param" and t.args[0] == "expanddim":
        return {"expand"}
    if t.op == "call" and t.args[0].op == "ent" and isinstance(
            t.args[0].args[0], ClassInfo) and t.args[1] and \
            is_const(t.args[1][0]):
        return {"expand"} if any(
            c.name == "DimBase" for c in t.args[0].args[0].mro()
            if isinstance(c, ClassInfo)) else set()
    if t.op == "sub":
        if is_const(t.args[1]) and cval(t.args[1]) == 1 and \
                t.args[0].op == "elem":
            r = base_role(t.args[0].args[0])
            if r:
                return {r}
        kr = key_role(t.args[1])
        if t.args[1].op in ("elem", "key", "call", "sub") and kr:
            b = t.args[0]
            br = base_role(b)
            if br:
                return {br}
            if b.op == "param":
                return kr
    if t.op == "elem":
        b = t.args[0]
        if b.op == "call" and short(b.args[0]) in ("values", "itervalues"):
            r = base_role(b)
            return {r} if r else set()
        if b.op == "attr" and b.args[1] == "dims":
            return {"dim"}
    p = peel(t)
    if p is not None:
        return elem_role(p, d + 1)
    return set()


# -- properties ----------------------------------------------------------------

def prop_of(t, casts=()):
    """set of (property, element, casts) a stored value stands for"""
    if t.op == "phi":
        return prop_of(t.args[1], casts) | prop_of(t.args[2], casts)
    if t.op in ("or", "and"):
        return frozenset().union(*[prop_of(x, casts) for x in t.args])
    if t.op == "call":
        n = short(t.args[0])
        if n in CASTS:
            a = t.args[1][0] if t.args[1] else (
                t.args[0].args[0] if t.args[0].op == "attr" else None)
            if t.args[0].op == "attr" and not t.args[1]:
                a = t.args[0].args[0]
            if a is not None:
                return prop_of(a, casts + (n,))
    if t.op == "attr":
        x, a = t.args
        if a in ("unit", "outputformat", "name") and not (
                x.op == "attr" and x.args[1] == "dtype"):
            return frozenset([(a, x, casts)])
        if a == "dtype":
            return frozenset([("dtype", x, casts)])
        if x.op == "attr" and x.args[1] == "dtype":
            if a in ("str", "name", "descr"):
                return frozenset([("dtype", x.args[0], casts)])
            return frozenset([("dtype." + a, x.args[0], casts)])
        if a in ("__name__", "__qualname__"):
            if x.op == "attr" and x.args[1] == "__class__":
                return frozenset([("class", x.args[0], casts)])
            if x.op == "call" and short(x.args[0]) == "type":
                return frozenset([("class", x.args[1][0], casts)])
    return frozenset()


def attrs_store(e):
    """(dataset term, key, value) of a store into X.attrs"""
    if e.kind == "store_sub" and e.obj is not None:
        o = e.obj
        for x in arms(o):
            if x.op == "attr" and x.args[1] == "attrs":
                return x.args[0], e.key, e.val
    if e.kind in ("call", "mut") and e.obj is not None:
        f = e.obj
        if f.op == "attr" and f.args[1] in ("create", "modify") and \
                f.args[0].op == "attr" and f.args[0].args[1] == "attrs" and \
                len(e.args) > 1:
            return f.args[0].args[0], e.args[0], e.args[1]
    return None


def arms(t):
    if t.op == "phi":
        for x in t.args[1:]:
            for y in arms(x):
                yield y
    else:
        yield t


def ds_role(x):
    """role of the HDF5 dataset term x on the writing side"""
    out = set()
    for a in arms(x):
        if a.op == "sub":
            out |= key_role(a.args[1])
        elif a.op == "call" and short(a.args[0]) == "create_dataset" and \
                a.args[1]:
            out |= key_role(a.args[1][0])
    return out


# -- reading side --------------------------------------------------------------

def key_of(t, casts=()):
    """set of (attribute key, dataset, casts) the value t is read from"""
    if t.op == "phi":
        return key_of(t.args[1], casts) | key_of(t.args[2], casts)
    if t.op in ("or", "and"):
        return frozenset().union(*[key_of(x, casts) for x in t.args])
    if t.op == "sub" and t.args[0].op == "attr" and \
            t.args[0].args[1] == "attrs":
        k = const_str(t.args[1])
        if k is not None:
            return frozenset([(k, t.args[0].args[0], casts)])
    if t.op == "call":
        f = t.args[0]
        if f.op == "attr" and f.args[1] == "get" and f.args[0].op == "attr" \
                and f.args[0].args[1] == "attrs" and t.args[1]:
            k = const_str(t.args[1][0])
            if k is not None:
                return frozenset([(k, f.args[0].args[0], casts)])
        n = short(f)
        if n in CASTS or n in ("dtype", "strip"):
            if t.args[1]:
                return key_of(t.args[1][0], casts + (n,))
            if f.op == "attr":
                return key_of(f.args[0], casts + (n,))
    return frozenset()


def table_key(f):
    """the term a table of classes is indexed with, or None"""
    if f.op == "sub" and f.args[0].op in ("ent", "obj"):
        return f.args[1]
    if f.op == "call" and f.args[0].op == "attr" and \
            f.args[0].args[1] == "get" and f.args[1]:
        return f.args[1][0]
    return None


def is_dim_ctor(f):
    for a in arms(f):
        k = table_key(a)
        if k is not None and key_of(k):
            return True
        if a.op == "ent" and isinstance(a.args[0], ClassInfo) and any(
                getattr(c, "name", "") == "DimBase" for c in
                a.args[0].mro()):
            return True
    return False


def is_hf(f):
    return f.op == "ent" and getattr(f.args[0], "name", "") in (
        "hfarray", "_hfarray")


def schema(prog, rep, ver):
    mod = V[ver]
    wr = find(prog, mod, "save_hdf5_handle") or find(prog, mod, "save_hdf5")
    rd = find(prog, mod, "read_hdf5_handle") or find(prog, mod, "read_hdf5")
    if wr is None or rd is None:
        rep.unsure("schema", mod, "", "writer or reader not found")
        return
    weng, _ = run(prog, wr, inline=inl, depth=6)
    reng, _ = run(prog, rd, inline=inl, depth=6)
    for eng in (weng, reng):
        rep.analysed(*{e.fi for e in eng.events if e.fi is not None})
    W, unknown, sites = writer(weng)
    R = reader(reng)
    for role, props in sorted(WANT[ver].items()):
        for p in props:
            agree(rep, ver, wr, rd, role, p, W, R, unknown, sites)
    wvalues(rep, ver, weng, wr)
    rvalues(rep, ver, reng, rd)
    names(rep, ver, weng, reng, wr, rd)
    order(rep, ver, weng, reng, wr, rd)
    if ver == "0.2":
        grow(rep, weng, wr)
        marker(rep, weng, reng, wr, rd)
    else:
        block(rep, weng, reng, wr, rd)


def writer(eng):
    W, unknown, sites = {}, 0, {}
    for e in eng.events:
        s = attrs_store(e)
        if s is None:
            continue
        ds, key, val = s
        k = const_str(key) if key is not None else None
        if k is None:
            unknown += 1
            continue
        rs = ds_role(ds)
        ps = prop_of(val)
        if not ps or not rs:
            sites.setdefault(k, []).append(e)
            if not ps and not is_const(val):
                unknown += not rs or not any(
                    x.op == "attr" for x in subterms(eng, val))
            continue
        for r in rs:
            for p, el, casts in ps:
                W.setdefault((r, p), []).append((k, e, el, casts))
    return W, unknown, sites


def reader(eng):
    R = {}
    for e in eng.events:
        if e.kind != "call" or e.obj is None:
            continue
        if is_hf(e.obj):
            role = "var"
        elif is_dim_ctor(e.obj):
            role = "dim"
        else:
            continue
        if legacy(eng, e):
            continue
        d = {}
        for p, pos in (("unit", 3 if role == "var" else None),
                       ("outputformat", None), ("dtype", None)):
            v = next((x for k, x in e.kw if k == p), None)
            d[p] = None if v is None else key_of(v)
            if v is not None and not d[p] and not (
                    is_const(v) and cval(v) is None):
                d[p] = "?"
        if role == "dim":
            data = e.args[1] if len(e.args) > 1 else kwarg(e, "data")
            for a in arms(data) if data is not None else ():
                while a is not None:
                    v = kwarg(a, "dtype", 1) if a.op == "call" and \
                        short(a.args[0]) in ("array", "asarray") else None
                    if v is None and a.op == "call" and a.args[0].op == \
                            "attr" and a.args[0].args[1] == "astype" and \
                            a.args[1]:
                        v = a.args[1][0]
                    if v is not None and not d["dtype"]:
                        d["dtype"] = key_of(v) or "?"
                    a = peel(a)
            ks = frozenset()
            for a in arms(e.obj):
                t = table_key(a)
                if t is not None:
                    ks |= key_of(t)
            d["class"] = ks or None
        if any(k == "**" for k, _ in e.kw):
            for p in d:
                d[p] = d[p] or "?"
        R.setdefault(role, []).append((e, d))
    return R


def ctor_base(e):
    """dataset terms a constructor call is fed from"""
    out = set()
    for t in list(e.args[:2]) + [v for k, v in e.kw]:
        for _, ds, _ in key_of(t):
            out.add(ds)
    return out


def legacy(eng, e):
    """A dimension made from a dataset that is not marked as a dimension:
    files of other programs, which the writer never makes."""
    if not is_dim_ctor(e.obj):
        return False
    b = ctor_base(e)
    for c, p in e.guards:
        if c.op == "cmp" and c.args[0] == "In" and not p and \
                c.args[2].op == "attr" and c.args[2].args[1] == "attrs" and \
                c.args[2].args[0] in b:
            return True
    return False


def agree(rep, ver, wr, rd, role, p, W, R, unknown, sites):
    rule = "schema-%s-%s" % (role, p)
    name = "hdf5 %s" % ver
    st = W.get((role, p), [])
    ctors = R.get(role, [])
    if not ctors:
        rep.unsure(rule, name, loc(rd), "constructor not found")
        return
    if not st:
        narrower = [x for (r, q), l in W.items() for x in l
                    if r == role and q.startswith(p + ".")]
        if narrower:
            e = narrower[0][1]
            rep.bad(rule, name, e.loc, "%s of a %s is stored only in part: %s"
                    % (p, role, show(e.val)[:200]))
        elif wrong_prop(rep, rule, name, role, p, W, ctors):
            pass
        elif unknown:
            rep.unsure(rule, name, loc(wr), "some attribute stores could not "
                       "be classified")
        else:
            rep.bad(rule, name, loc(wr), "the %s of a %s is not stored" % (
                p, role))
        return
    keys = {k for k, e, el, c in st}
    ok = True
    for e, d in ctors:
        rk = d.get(p)
        if rk == "?":
            rep.unsure(rule, name, e.loc, "source of %s not recognised" % p)
            ok = None
            continue
        if not rk:
            rep.bad(rule, name, e.loc, "the %s of a %s is stored (as %s) but "
                    "not passed to %s" % (p, role, sorted(keys),
                                          show(e.obj)[:120]))
            ok = False
            continue
        got = {k for k, ds, c in rk}
        if not got <= keys:
            rep.bad(rule, name, e.loc, "the %s of a %s is stored as %s but "
                    "read from %s" % (p, role, sorted(keys), sorted(got)))
            ok = False
        bts = any("cast_bytes" in c or "encode" in c for _, _, _, c in st)
        if bts and any("str" in c for _, _, c in rk):
            rep.bad(rule, name, e.loc, "the %s of a %s is stored as bytes and "
                    "read with str()" % (p, role))
            ok = False
    # the store itself
    bykey = {}
    for k, e, el, c in st:
        bykey.setdefault(k, []).append((e, el))
    for k, es in bykey.items():
        for e, el in es:
            er = elem_role(el)
            if er and role not in er and not (role == "dim" and
                                              "expand" in er):
                rep.bad(rule, name, e.loc, "the %s stored for a %s is that of "
                        "a %s" % (p, role, sorted(er)))
                ok = False
            if len(es) == 1:
                g = partial(e, el, p)
                if g is not None:
                    rep.bad(rule, name, e.loc, "the %s of a %s is stored only "
                            "if %s" % (p, role, g))
                    ok = False
    if ok:
        rep.holds(rule, name, st[0][1].loc, "key %s" % sorted(keys))


def wrong_prop(rep, rule, name, role, p, W, ctors):
    """the key the reader takes p from is written with something else"""
    for e, d in ctors:
        if d.get(p) in (None, "?"):
            continue
        for k, ds, c in d[p]:
            for (r, q), l in W.items():
                for k2, e2, el, c2 in l:
                    if r == role and k2 == k and q != p:
                        rep.bad(rule, name, e2.loc, "%r is written with the "
                                "%s of a %s and read as its %s" % (
                                    k, q, role, p))
                        return True
    return False


def props_in(t, out):
    """attributes of data set elements a condition looks at"""
    if t.op == "attr" and elem_role(t.args[0]):
        out.add(t.args[1])
        return
    for a in t.args[1:] if t.op == "phi" else t.args:
        if isinstance(a, tuple):
            for b in a:
                if hasattr(b, "op"):
                    props_in(b, out)
        elif hasattr(a, "op"):
            props_in(a, out)


def partial(e, el, p):
    for c, pol in e.guards:
        s = set()
        props_in(c, s)
        s -= {"name", "data", "dims"}
        if s - {p, "dtype" if p == "dtype" else p}:
            return "%s%s" % ("" if pol else "not ", show(c)[:160])
        if p in s and not pol and not negated(c):
            return "not %s" % show(c)[:160]
    return None


def negated(c):
    """conditions that are true when the property is empty"""
    if c.op == "not":
        return True
    return c.op == "cmp" and c.args[0] in ("Is", "Eq") and any(
        is_const(x) and not cval(x) for x in c.args[1:])


# -- values --------------------------------------------------------------------

def chain(t, path=()):
    """(end term, [(op, term, path conditions)]) for each way down to what the
    values of t come from"""
    if t.op == "phi":
        for x in chain(t.args[1], path + ((t.args[0], True),)):
            yield x
        for x in chain(t.args[2], path + ((t.args[0], False),)):
            yield x
        return
    ops, nxt = None, None
    if t.op == "attr" and t.args[1] in LOSSY:
        ops, nxt = t.args[1], t.args[0]
    elif t.op == "call":
        f = t.args[0]
        n = short(f)
        if n in LOSSY:
            nxt = t.args[1][0] if t.args[1] else (
                f.args[0] if f.op == "attr" else None)
            ops = n
        elif n in ("astype", "view") and f.op == "attr":
            nxt = f.args[0]
            a = kwarg(t, "dtype", 0)
            ops = (n, a) if a is not None else None
        elif n in ("array", "asarray", "hfarray", "_hfarray") or \
                is_array_ctor(f):
            a = kwarg(t, "dtype", None)
            nxt = kwarg(t, "data", 0) or (t.args[1][0] if t.args[1] else None)
            if a is not None and not key_of(a) and not (
                    is_const(a) and cval(a) is None):
                ops = ("astype", a)
        elif n in ("round",):
            ops, nxt = n, t.args[1][0] if t.args[1] else None
        else:
            nxt = peel(t)
    elif t.op == "bin":
        ops = t.args[0]
        nxt = next((x for x in t.args[1:] if not is_const(x)), None)
    elif t.op == "un" or t.op == "neg":
        ops, nxt = t.op, t.args[-1]
    elif t.op == "attr" and t.args[1] == "T":
        ops, nxt = "T", t.args[0]
    else:
        nxt = peel(t)
    if nxt is None:
        yield t, []
        return
    for end, l in chain(nxt, path):
        yield end, ([(ops, t, path)] if ops else []) + l


def dtname(a):
    if a.op == "ent":
        return getattr(a.args[0], "fullname", None) or \
            getattr(a.args[0], "name", "")
    if is_const(a):
        return str(cval(a))
    return ""


def known_true(c, p):
    """tests that are true when c is p"""
    if c.op == "not":
        return known_true(c.args[0], not p)
    if c.op == ("and" if p else "or"):
        return [x for a in c.args for x in known_true(a, p)]
    return [c] if p and c.op not in ("and", "or") else []


def lossless(op, path):
    """True / False / None for an operation on the way to the file"""
    if isinstance(op, tuple):
        n = dtname(op[1]).split(".")[-1]
        cond = " ".join(show(x) for c, p in path for x in known_true(c, p))
        if "datetime64" in cond or "timedelta64" in cond or "'M'" in cond:
            return n in ("uint64", "int64") or (None if not n else False)
        if "unicode" in cond or "str_" in cond or "'U'" in cond:
            return True if "string" in n or "S" in n or not n else None
        if n in ("float32", "float16", "complex64", "int", "int32", "int64",
                 "int16", "uint64", "uint32", "float", "float64", "f4",
                 "i4", "double", "single"):
            return False
        return None
    return False


def wvalues(rep, ver, eng, fi):
    rule, name = "values-written", "hdf5 %s" % ver
    seen = 0
    for e in eng.events:
        if e.kind != "call" or e.obj is None or \
                short(e.obj) != "create_dataset":
            continue
        data = kwarg(e, "data", 3)
        if data is None or not e.args:
            continue
        kr = key_role(e.args[0])
        if not kr:
            continue
        seen += 1
        ok = True
        for end, ops in chain(data):
            er = elem_role(end)
            if er and not er & kr and not ("dim" in kr and "expand" in er):
                rep.bad(rule, name, e.loc, "a %s is stored with the values of "
                        "a %s" % (sorted(kr), sorted(er)))
                ok = False
            if not er:
                rep.unsure(rule, name, e.loc, "values %s" % show(end)[:150])
                ok = None
                continue
            for op, t, path in ops:
                r = lossless(op, path)
                if r is False:
                    rep.bad(rule, name, e.loc, "values are changed on the way "
                            "to the file by %s" % show(t)[:200])
                    ok = False
                elif r is None:
                    rep.unsure(rule, name, e.loc, "cast %s" % show(t)[:150])
                    ok = ok and None
            k0, end0 = e.args[0], end
            if same_key(k0, end0) is False:
                rep.bad(rule, name, e.loc, "variable %s gets the values of %s"
                        % (show(k0)[:100], show(end0)[:100]))
                ok = False
        for k in ("dtype", "scaleoffset"):
            v = next((x for n, x in e.kw if n == k), None)
            if v is not None and not (is_const(v) and cval(v) is None):
                if k == "dtype" and any(
                        x.op == "attr" and x.args[1] == "dtype"
                        for x in subterms(eng, v)):
                    continue
                rep.bad(rule, name, e.loc, "%s=%s changes the stored values"
                        % (k, show(v)[:80]))
                ok = False
        if ok:
            rep.holds(rule, name, e.loc, show(e.args[0])[:80])
    if not seen:
        rep.unsure(rule, name, loc(fi), "no create_dataset found")


def root_key(k):
    """the loop element a key term is made of"""
    while True:
        if k.op == "call" and k.args[0].op == "attr":
            k = k.args[0].args[0]
        elif k.op == "call" and short(k.args[0]) in CASTS and k.args[1]:
            k = k.args[1][0]
        elif k.op == "sub" and k.args[0].op == "elem":
            return k.args[0]
        else:
            return k


def same_key(k, end):
    """key term and element term belong to the same loop element"""
    if end.op != "sub":
        return None
    if end.args[0].op == "elem":
        other = end.args[0]
    else:
        other = root_key(end.args[1])
    mine = root_key(k)
    if mine.op in ("elem", "key") and other.op in ("elem", "key"):
        return mine is other
    return None


def rvalues(rep, ver, eng, fi):
    rule, name = "values-read", "hdf5 %s" % ver
    seen = 0
    for e in eng.events:
        if e.kind != "call" or e.obj is None:
            continue
        hf = is_hf(e.obj)
        if not hf and not is_dim_ctor(e.obj):
            continue
        data = kwarg(e, "data", 0 if hf else 1)
        if data is None:
            continue
        if not hf and legacy(eng, e):
            continue
        base = ctor_base(e)
        seen += 1
        ok = True
        for end, ops in chain(data):
            for op, t, path in ops:
                if isinstance(op, tuple) and not lossless(op, path) and \
                        not key_of(op[1]):
                    r = lossless(op, path)
                    if r is False:
                        rep.bad(rule, name, e.loc, "values are cast: %s"
                                % show(t)[:160])
                        ok = False
                elif not isinstance(op, tuple):
                    rep.bad(rule, name, e.loc, "values are changed after "
                            "reading: %s" % show(t)[:160])
                    ok = False
            d = end
            if d.op == "attr" and d.args[1] == "value":
                d = d.args[0]
            elif d.op == "sub" and d not in base:
                i = d.args[1]
                if whole(i):
                    d = d.args[0]
                elif d.args[0] in base:
                    rep.bad(rule, name, e.loc, "only a part of the stored "
                            "values is read: [%s]" % show(i)[:60])
                    ok = False
                    d = d.args[0]
            if base and d not in base:
                if any(d.op == b.op for b in base):
                    rep.bad(rule, name, e.loc, "values are read from %s, "
                            "attributes from %s" % (
                                show(d)[:120], show(list(base)[0])[:120]))
                    ok = False
                else:
                    ok = ok and None
        if ok:
            rep.holds(rule, name, e.loc)
        elif ok is None:
            rep.unsure(rule, name, e.loc, show(data)[:150])
    if not seen:
        rep.unsure(rule, name, loc(fi), "no constructor found")


def whole(i):
    if i.op == "tuple":
        return all(whole(x) for x in i.args)
    if i.op == "slice":
        return all(is_const(x) and cval(x) is None for x in i.args)
    return is_const(i) and cval(i) is Ellipsis or \
        fname(i) == "builtins.Ellipsis"


# -- names and order -----------------------------------------------------------

def replaces(k):
    """replacements applied to a key term, innermost first"""
    out = []
    while True:
        if k.op == "call" and k.args[0].op == "attr":
            if k.args[0].args[1] == "replace" and len(k.args[1]) >= 2:
                a, b = (const_str(x) for x in k.args[1][:2])
                out.append((a, b))
            k = k.args[0].args[0]
        elif k.op == "call" and short(k.args[0]) in CASTS and k.args[1]:
            k = k.args[1][0]
        else:
            break
    return tuple(reversed(out))


def inverse(r):
    return tuple((b, a) for a, b in reversed(r))


def names(rep, ver, weng, reng, wr, rd):
    rule, name = "names", "hdf5 %s" % ver
    esc = {}
    for e in weng.events:
        ks = []
        if e.kind == "call" and e.obj is not None:
            if short(e.obj) == "create_dataset" and e.args:
                ks = [e.args[0]]
            elif short(e.obj) in ("create_scale", "attach_scale", "make_scale"):
                for a in e.args[:1]:
                    if a.op == "sub":
                        ks.append(a.args[1])
        elif e.kind == "store_sub":
            s = attrs_store(e)
            if s and s[0].op == "sub":
                ks = [s[0].args[1]]
        for k in ks:
            r = key_role(k)
            if r and "expand" not in r:
                esc.setdefault(replaces(k), e)
    if not esc:
        rep.unsure(rule, name, loc(wr), "no keys found")
        return
    if len(esc) > 1:
        l = list(esc.items())
        rep.bad(rule, name, l[1][1].loc, "names are escaped as %r here and as "
                "%r at %s" % (l[1][0], l[0][0], l[0][1].loc))
        return
    want = inverse(list(esc)[0])
    ok = True
    for e in reng.events:
        ks = []
        if e.kind == "store_sub" and e.obj is not None and e.key is not None \
                and "attrs" != (e.obj.args[1] if e.obj.op == "attr" else ""):
            k = e.key
            if from_file(reng, k):
                ks.append(k)
                v = e.val
                vals = set()
                for a in arms(v):
                    vals |= ds_in(reng, a)
                mine = root_key(k)
                if mine.op in ("elem", "key") and vals and not any(
                        root_key(x.args[1]) is mine for x in vals
                        if x.op == "sub"):
                    rep.bad(rule, name, e.loc, "the entry %s is filled from "
                            "%s" % (show(k)[:80],
                                    show(list(vals)[0])[:80]))
                    ok = False
        elif e.kind == "call" and e.obj is not None and \
                is_dim_ctor(e.obj) and e.args and not legacy(reng, e):
            ks.append(e.args[0])
        for k in ks:
            got = replaces(k)
            if got != want:
                rep.bad(rule, name, e.loc, "names are written with the "
                        "replacements %r but read with %r" % (
                            inverse(want), got))
                ok = False
    if ok:
        rep.holds(rule, name, loc(rd), repr(want))


def from_file(eng, k):
    k = root_key(k)
    return k.op in ("elem", "key") and any(
        x.op == "param" for x in subterms(eng, k))


def ds_in(eng, t):
    """datasets (file[key]) that the constructed value t takes values from"""
    out = set()
    if t.op == "call":
        d = kwarg(t, "data", 0 if is_hf(t.args[0]) else 1)
        if d is not None:
            for end, _ in chain(d):
                if end.op == "attr" and end.args[1] == "value":
                    end = end.args[0]
                while end.op == "sub" and whole(end.args[1]):
                    end = end.args[0]
                if end.op == "sub":
                    out.add(end)
    return out


def order(rep, ver, weng, reng, wr, rd):
    rule, name = "dimension-order", "hdf5 %s" % ver
    ok = True
    for eng, what in ((weng, "written"), (reng, "read")):
        for e in eng.events:
            if e.kind == "call" and e.obj is not None and \
                    fname(e.obj) in ("builtins.reversed", "builtins.sorted",
                                     "builtins.set") and e.args:
                a = e.args[0]
                if dims_term(eng, a):
                    rep.bad(rule, name, e.loc, "dimensions are %s in another "
                            "order: %s(%s)" % (what, fname(e.obj),
                                               show(a)[:100]))
                    ok = False
            if e.kind == "mut" and e.name == "insert" and e.args and \
                    is_const(e.args[0]) and cval(e.args[0]) == 0 and \
                    len(e.args) > 1 and e.args[1].op == "call" and \
                    is_dim_ctor(e.args[1].args[0]):
                rep.bad(rule, name, e.loc, "dimensions are collected back to "
                        "front")
                ok = False
            for t in list(e.args) + [v for _, v in e.kw] + (
                    [e.val] if e.val is not None else []):
                if any(k == "dims" and v is t for k, v in e.kw) and \
                        is_hf(e.obj) and backwards(t):
                    rep.bad(rule, name, e.loc, "dimensions are reversed: %s"
                            % show(t)[:100])
                    ok = False
                if t.op == "sub" and t.args[1].op == "slice" and \
                        is_const(t.args[1].args[2]) and \
                        cval(t.args[1].args[2]) == -1 and \
                        dims_term(eng, t.args[0]):
                    rep.bad(rule, name, e.loc, "dimensions are reversed: %s"
                            % show(t)[:100])
                    ok = False
    # the scale is attached at the position of the dimension
    for e in weng.events:
        if e.kind == "call" and e.obj is not None and \
                short(e.obj) == "attach_scale" and e.obj.op == "attr":
            tgt = e.obj.args[0]
            if tgt.op == "sub" and e.args and e.args[0].op == "sub":
                i = tgt.args[1]
                kr = e.args[0].args[1]
                root = root_key(kr)
                if root.op == "attr" and root.args[1] == "name":
                    root = root.args[0]
                if i.op == "idx" and root.op == "elem" and \
                        len(root.args) > 1:
                    if i.args[0] != root.args[1]:
                        rep.bad(rule, name, e.loc, "scale attached at the "
                                "position of another dimension")
                        ok = False
                elif i.op == "bin" or is_const(i):
                    rep.bad(rule, name, e.loc, "scale attached at %s" %
                            show(i)[:80])
                    ok = False
    if ok:
        rep.holds(rule, name, loc(rd))


def backwards(t):
    if t.op == "sub" and t.args[1].op == "slice" and \
            is_const(t.args[1].args[2]) and cval(t.args[1].args[2]) == -1:
        return True
    if t.op == "call" and short(t.args[0]) in ("list", "tuple") and t.args[1]:
        return backwards(t.args[1][0])
    return t.op == "call" and fname(t.args[0]) == "builtins.reversed"


def dims_term(eng, t):
    if t.op == "attr" and t.args[1] == "dims":
        return True
    if t.op == "sub" and t.args[1].op == "slice":
        return dims_term(eng, t.args[0])
    if t.op == "call" and short(t.args[0]) in ("list", "tuple", "enumerate") \
            and t.args[1]:
        return dims_term(eng, t.args[1][0])
    if key_of(t) and any("name" in k for k, _, _ in key_of(t)):
        return True
    return False


# -- version 0.2 ---------------------------------------------------------------

def grow(rep, eng, fi):
    """the dimension added for appending is the one that can grow"""
    rule = "growing-axis"
    added, free = {}, {}
    for e in eng.events:
        if e.kind == "call" and e.obj is not None and \
                short(e.obj) == "add_dim":
            args = e.args if e.obj.op == "attr" else e.args[1:]
            ax = args[1] if len(args) > 1 else next(
                (v for k, v in e.kw if k == "axis"), None)
            added[cval(ax) if ax is not None and is_const(ax) else
                  (0 if ax is None else "?")] = e
        if e.kind == "store_sub" and e.obj is not None and \
                e.obj.op == "obj" and e.val is not None and is_const(e.val) \
                and cval(e.val) is None and e.key is not None and \
                is_const(e.key):
            free[cval(e.key)] = e
    if not added or not free or "?" in added:
        rep.unsure(rule, fi, loc(fi), "added %s free %s" % (
            sorted(map(str, added)), sorted(map(str, free))))
        return
    a, f = set(added) - {0}, set(free) - {0}
    if a != f:
        e = list(free.values())[0]
        rep.bad(rule, fi, e.loc, "the appended dimension is axis %s, the axis "
                "that can grow is %s" % (sorted(a), sorted(f)))
    else:
        rep.holds(rule, fi, list(free.values())[0].loc, "axis %s" % sorted(a))


def marker(rep, weng, reng, wr, rd):
    """datasets are told apart by an attribute only dimensions have"""
    rule = "marker"
    W, _, sites = writer(weng)
    dimkeys = {k for (r, p), l in W.items() for k, e, el, c in l
               if r in ("dim", "expand")}
    varkeys = {k for (r, p), l in W.items() for k, e, el, c in l
               if r == "var"}
    always = {k for (r, p), l in W.items() for k, e, el, c in l
              if r == "dim" and not any(
                  p2 in ("unit", "outputformat") for p2 in [p])}
    ok = True
    n = 0
    for e in reng.events:
        if e.kind != "store_sub" or not from_file(reng, e.key or e.obj):
            continue
        role = {("var" if is_hf(a.args[0]) else "dim")
                for a in arms(e.val) if a.op == "call"}
        if len(role) != 1:
            continue
        role = role.pop()
        for c, pol in e.guards:
            if c.op == "cmp" and c.args[0] == "In" and \
                    const_str(c.args[1]) is not None and \
                    c.args[2].op == "attr" and c.args[2].args[1] == "attrs":
                k = const_str(c.args[1])
                n += 1
                if k in varkeys or k not in always:
                    rep.bad(rule, rd, e.loc, "%r does not tell dimensions "
                            "from variables: dimensions have %s, variables "
                            "have %s" % (k, sorted(dimkeys), sorted(varkeys)))
                    ok = False
                elif pol != (role == "dim"):
                    rep.bad(rule, rd, e.loc, "datasets %s %r are read as a %s"
                            % ("with" if pol else "without", k, role))
                    ok = False
    if ok and n:
        rep.holds(rule, rd, loc(rd))
    elif not n:
        rep.unsure(rule, rd, loc(rd), "no test of a marker attribute found")


# -- version 0.1 ---------------------------------------------------------------

def block(rep, weng, reng, wr, rd):
    rule = "block"
    wkeys, rkeys = {}, {}
    groups, rgroups = {}, {}
    for e in weng.events:
        s = attrs_store(e)
        if s:
            k = const_str(s[1])
            if k:
                wkeys[k] = e
        if e.kind == "call" and e.obj is not None and \
                short(e.obj) in ("create_group", "require_group",
                                 "create_dataset") and e.args:
            k = const_str(e.args[0])
            if k:
                groups[k] = e
    for e in reng.events:
        for t in list(e.args) + [v for _, v in e.kw] + [
                x for x in (e.obj, e.val) if x is not None]:
            for x in subterms(reng, t):
                for k, ds, c in key_of(x):
                    rkeys.setdefault(k, e)
                if x.op == "sub" and const_str(x.args[1]) is not None and \
                        not (x.args[0].op == "attr" and
                             x.args[0].args[1] == "attrs"):
                    rgroups.setdefault(const_str(x.args[1]), e)
    miss = set(rkeys) - set(wkeys)
    for k in sorted(miss):
        rep.bad(rule, rd, rkeys[k].loc, "attribute %r is read but never "
                "written" % k)
    gm = set(rgroups) - set(groups)
    for k in sorted(gm):
        rep.bad(rule, rd, rgroups[k].loc, "%r is read but never written" % k)
    # blockname
    bn = [e for e in weng.events if attrs_store(e) and any(
        x.op == "attr" and x.args[1] == "blockname"
        for x in arms(attrs_store(e)[2]))]
    rb = [e for e in reng.events if e.kind == "store_attr" and
          e.name == "blockname"]
    if bn and rb:
        wk = {const_str(attrs_store(e)[1]) for e in bn}
        rk = {k for e in rb for k, _, _ in key_of(e.val)}
        if rk and not rk <= wk:
            rep.bad(rule, rd, rb[0].loc, "blockname is stored as %s and read "
                    "from %s" % (sorted(wk), sorted(rk)))
        elif rk:
            rep.holds(rule, rd, rb[0].loc, "blockname %s" % sorted(rk))
    elif not bn and rb or bn and not rb:
        rep.bad(rule, rd, (bn or rb)[0].loc, "blockname is %s" % (
            "written but not read" if bn else "read but not written"))
    if not miss and not gm and rkeys and rgroups:
        rep.holds(rule, rd, loc(rd), "attributes %s, groups %s" % (
            sorted(rkeys), sorted(rgroups)))


# -- dispatch ------------------------------------------------------------------

def stamp(prog, mod):
    wr = find(prog, mod, "save_hdf5_handle") or find(prog, mod, "save_hdf5")
    if wr is None:
        return None
    eng, _ = run(prog, wr, inline=inl, depth=3)
    for e in eng.events:
        s = attrs_store(e)
        if s and s[0].op == "param" and const_str(s[1]) and \
                const_str(s[2]) is not None:
            return const_str(s[1]), const_str(s[2]), e
    return None


def dispatch(prog, rep):
    rule = "version"
    rd = find(prog, PKG + ".hdf5", "read_hdf5")
    sv = find(prog, PKG + ".hdf5", "save_hdf5")
    st = stamp(prog, V["0.2"])
    if rd is None or sv is None:
        rep.unsure(rule, PKG, "", "read_hdf5/save_hdf5 not found")
        return
    if st is None:
        rep.bad(rule, V["0.2"] + ".save", "", "the file version is not "
                "stored") if find(prog, V["0.2"], "save_hdf5_handle") else \
            rep.unsure(rule, V["0.2"], "", "")
        return
    key, val, ev = st

    def il(fi):
        return fi.module.name in (PKG + ".hdf5", PKG + ".helper") and \
            fi.name != "hdf5context"
    for fi, fn, param in ((rd, "read_hdf5", None), (sv, "save_hdf5",
                                                    "version")):
        eng, res = run(prog, fi, inline=il, depth=3)
        rep.analysed(fi)
        got = 0
        for e in eng.events:
            if e.kind != "call" or e.obj is None:
                continue
            for f, conds in targets(e.obj, e.guards):
                if f.op != "ent" or not isinstance(f.args[0], FuncInfo) or \
                        f.args[0].module.name not in V.values():
                    continue
                tgt = f.args[0].module.name
                for c, pol in conds:
                    if c.op != "cmp" or c.args[0] not in ("Eq", "In"):
                        continue
                    vs = [vconst(prog, x) for x in c.args[1:]]
                    v = next((x for x in vs if x is not None), None)
                    if v is None:
                        continue
                    other = [x for x in c.args[1:]
                             if vconst(prog, x) is None]
                    if param is None:
                        ks = set()
                        for o in other:
                            ks |= {k for k, _, _ in key_of(o)}
                        if not ks:
                            continue
                        if key not in ks:
                            rep.bad(rule, fi, e.loc, "the version is stored "
                                    "as %r and read from %s" % (
                                        key, sorted(ks)))
                            got += 1
                            continue
                    elif not any(o.op == "param" and o.args[0] == param
                                 for o in other):
                        continue
                    got += 1
                    match = v == val
                    want = V["0.2"] if match == pol else V["0.1"]
                    if not match and not pol:
                        continue
                    if tgt != want or not match:
                        rep.bad(rule, fi, e.loc, "%s is used for files %s "
                                "version %r; %s stores version %r" % (
                                    tgt.split(".")[-1],
                                    "with" if pol else "without", v,
                                    V["0.2"].split(".")[-1], val))
                    else:
                        rep.holds(rule, fi, e.loc, "%s %s%s" % (
                            tgt, "" if pol else "not ", v))
                # the data block goes along
                if fn == "save_hdf5":
                    db = e.args[0] if e.args else None
                    if db is not None and db.op == "param" and \
                            db.args[0] != fi.params[0]:
                        rep.bad(rule, fi, e.loc, "%s is saved instead of the "
                                "data block" % show(db))
        if not got:
            rep.unsure(rule, fi, loc(fi), "no test of the version found")


def vconst(prog, t):
    s = const_str(t)
    if s is not None:
        return s
    if t.op == "ent" and hasattr(t.args[0], "value"):
        n = getattr(t.args[0], "value", None)
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return n.value
    return None


def targets(f, conds):
    if f.op == "phi":
        for p, x in ((True, f.args[1]), (False, f.args[2])):
            for y in targets(x, tuple(conds) + ((f.args[0], p),)):
                yield y
    else:
        yield f, conds


# -- class tables --------------------------------------------------------------

def tables(prog, rep):
    """every kind of dimension can be read, as the class it was"""
    rule = "dimension-classes"
    base = None
    for c in prog.all_classes():
        if c.name == "DimBase" and c.module.name.startswith("hftools.dataset"):
            base = c
    if base is None:
        rep.unsure(rule, "DimBase", "", "not found")
        return
    kinds = sorted({c.name for c in prog.all_classes()
                    if c.subclass_of(base) and c.name[0] != "_" and
                    ".tests" not in c.module.name})
    for ver, mod in sorted(V.items()):
        m = prog.modules[mod]
        n = 0
        for s in m.tree.body:
            if not isinstance(s, ast.Assign) or not isinstance(
                    s.value, ast.Dict):
                continue
            ks = [k.value for k in s.value.keys if isinstance(k, ast.Constant)]
            if not set(ks) & set(kinds):
                continue
            n += 1
            ok = True
            for k, v in zip(s.value.keys, s.value.values):
                if not isinstance(k, ast.Constant) or \
                        not isinstance(v, (ast.Name, ast.Attribute)):
                    continue
                c = prog.resolve_expr(m, v) if hasattr(
                    prog, "resolve_expr") else m.syms.get(
                        getattr(v, "id", ""))
                c = getattr(c, "name", None) or getattr(v, "id", None) or \
                    getattr(v, "attr", None)
                c = c.split(".")[-1].split(":")[-1]
                if k.value in kinds and c in kinds and c != k.value:
                    rep.bad(rule, mod, "%s:%d" % (m.rel, k.lineno),
                            "%r is read as %s" % (k.value, c))
                    ok = False
            miss = [k for k in kinds if k not in ks]
            full = all(isinstance(k, ast.Constant) for k in s.value.keys)
            if miss and full and not updated(m, s):
                rep.bad(rule, mod, "%s:%d" % (m.rel, s.lineno),
                        "dimensions of class %s are written but can not be "
                        "read" % ", ".join(miss))
                ok = False
            if ok:
                rep.holds(rule, mod, "%s:%d" % (m.rel, s.lineno),
                          ", ".join(kinds))
        if not n:
            comp = [s for s in m.tree.body if isinstance(s, ast.Assign) and
                    "DimBase" in ast.dump(s.value)]
            if comp:
                rep.holds(rule, mod, "%s:%d" % (m.rel, comp[0].lineno),
                          "collected from the dim module")
            else:
                rep.unsure(rule, mod, m.rel, "no table of classes found")


def updated(m, s):
    """the table is changed after its definition"""
    names = {t.id for t in s.targets if isinstance(t, ast.Name)}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Name) and \
                n.func.value.id in names and n.func.attr in ("update",
                                                             "setdefault"):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and \
                isinstance(n.value, ast.Name) and n.value.id in names:
            return True
    return False
