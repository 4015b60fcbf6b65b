"""Dimension objects are immutable values with consistent ==, < and hash."""
import ast

from ..effects import mutations
from ..engine import T, alternatives, cval, is_const, show, subterms
from ..lib import (all_funcs, deps, fname, is_param, kwarg, loc, none_assume,
                   resolve, run, short)
from ..model import AnalysisBroken

RULE = (
    "For the dimension base class and all subclasses: no property setter, no "
    "store to the value fields outside the constructor (whole repository), "
    "no method modifies self; the axis values are held in an immutable "
    "tuple and handed out as fresh arrays; the fields compared by == (the "
    "same field on both sides) must contain every field that enters the "
    "hash and name, class, values and unit; < compares like with like; "
    "deriving a dimension from another (constructor with a dimension as "
    "first argument, slicing) takes each field not given from the source, "
    "under every combination of given and omitted arguments.")
MIN = 20

B = "hftools.dataset.dim:DimBase"
FIELDS = ("name", "unit", "outputformat")


def norm(n):
    return n.strip("_")


def cmp_fields(eng, term, ops):
    """Fields of self compared with the same field of other, and mismatching
    pairs, in the comparison(s) ``ops`` inside ``term``."""
    same, wrong, seen = set(), [], False

    def side(t):
        if t.op == "attr" and t.args[0].op == "param" and \
                t.args[0].args[0] in ("self", "other"):
            return t.args[0].args[0], norm(t.args[1])
        if t.op == "call" and fname(t.args[0]) == "builtins.type" and \
                t.args[1] and t.args[1][0].op == "param":
            return t.args[1][0].args[0], "class"
        return None

    def pair(a, b):
        if a is b:
            return
        x, y = side(a), side(b)
        if x and y:
            if x[0] != y[0] and x[1] == y[1]:
                same.add(x[1])
            else:
                wrong.append((show(a), show(b)))
        elif is_const(a) and y or is_const(b) and x:
            # class attribute folded to its value: e.g. sortprio
            same.add((x or y)[1])

    def comps(t):
        """component lists of a tuple-valued term (phi alternatives)."""
        for a in alternatives(t):
            if a.op == "tuple":
                yield a.args
            elif a.op == "bin" and a.args[0] == "Add":
                for p in comps(a.args[1]):
                    for q in comps(a.args[2]):
                        yield tuple(p) + tuple(q)

    for t in subterms(eng, term, control=True):
        if t.op == "cmp" and t.args[0] in ops:
            la, lb = list(comps(t.args[1])), list(comps(t.args[2]))
            if la and lb:
                seen = True
                for p in la:
                    for q in lb:
                        if len(p) == len(q):
                            for a, b in zip(p, q):
                                pair(a, b)
            else:
                x, y = side(t.args[1]), side(t.args[2])
                if x and y:
                    seen = True
                    pair(t.args[1], t.args[2])
    return same, wrong, seen


def selfs_in(eng, t):
    out = set()
    for x in subterms(eng, t, control=False):
        if x.op == "attr" and is_param(x.args[0], "self"):
            out.add(norm(x.args[1]))
    return out


def constructing(prog, fi):
    """a private method that only __init__ calls"""
    if not fi.name.startswith("_") or fi.name.startswith("__"):
        return False
    sites = [f for f in all_funcs(prog) for nd in ast.walk(f.node)
             if isinstance(nd, ast.Attribute) and nd.attr == fi.name]
    return bool(sites) and all(f.name == "__init__" and f.cls is not None
                               for f in sites)


def check(prog, rep, tier):
    base = prog.cls(B)
    dims = [c for c in prog.all_classes() if c.subclass_of(base)]
    # 1. no setters, no self mutation ------------------------------------
    for ci in dims:
        for n in getattr(ci, "setters", {}):
            rep.bad("immutable", "%s.%s setter" % (ci.fullname, n), ci.fullname,
                    "dimension attribute %r can be assigned" % n)
        for n, fi in ci.methods.items():
            if n == "__init__" or not hasattr(fi, "node") or fi.is_setter:
                continue
            if constructing(prog, fi):
                continue        # judged as part of __init__
            eng, res = run(prog, fi, self_cls=ci, depth=3)
            rep.analysed(fi)
            bad = [(what, e.loc) for e, roots, what in mutations(eng)
                   if any(is_param(r, "self") for r in roots)]
            rep.ob("immutable", fi, not bad, loc(fi),
                   "modifies the dimension: %s" % bad[:1] if bad else "")
    # 2. stores from elsewhere -------------------------------------------
    n = 0
    stored = ("_data", "_name", "_unit", "_outputformat")
    built = set()       # stores reached while a dimension is constructed
    for ci in prog.all_classes():
        ctor = ci.methods.get("__init__")
        if ctor is not None:
            e2, _ = run(prog, ctor, depth=3, inline=lambda f: False)
            built |= {(e.fi.module.name, e.node.lineno) for e in e2.events
                      if e.kind == "store_attr" and e.name in stored and
                      is_param(e.obj, "self")}
    # classes that are not dimensions and have a field of the same name
    other = set()
    for fi in all_funcs(prog):
        if fi.cls is not None and not fi.cls.subclass_of(base):
            for nd in ast.walk(fi.node):
                if isinstance(nd, ast.Attribute) and nd.attr in stored and \
                        isinstance(nd.ctx, ast.Store):
                    other.add(nd.attr)
    for fi in all_funcs(prog):
        own = fi.cls is not None and fi.cls.subclass_of(base)
        alias = {"self"}
        for nd in ast.walk(fi.node):
            if isinstance(nd, ast.Assign) and isinstance(
                    nd.value, ast.Name) and nd.value.id in alias:
                alias |= {t.id for t in nd.targets
                          if isinstance(t, ast.Name)}
        for nd in ast.walk(fi.node):
            tg = []
            if isinstance(nd, ast.Assign):
                tg = nd.targets
            elif isinstance(nd, (ast.AugAssign, ast.AnnAssign)):
                tg = [nd.target]
            for t in tg:
                if not isinstance(t, ast.Attribute):
                    continue
                if t.attr not in ("_data", "_name", "_unit",
                                  "_outputformat"):
                    continue
                b = t.value
                if (fi.module.name, t.lineno) in built:
                    continue
                isself = isinstance(b, ast.Name) and b.id in alias
                if isself and (not own or fi.name == "__init__"):
                    continue
                if (t.attr == "_outputformat" or t.attr in other) and not (
                        isinstance(b, ast.Name) and "dim" in b.id):
                    continue
                n += 1
                rep.bad("immutable", "store %s.%s in %s" % (
                    ast.unparse(b), t.attr, fi.fullname), loc(fi, t),
                    "assigns a dimension's value field after construction")
    rep.holds("immutable", "no outside stores to value fields")
    # 3. representation ---------------------------------------------------
    init = base.find("__init__")
    eng, res = run(prog, init, self_cls=base)
    rep.analysed(init)
    stores = {}
    for e in eng.events:
        if e.kind == "store_attr" and is_param(e.obj, "self"):
            stores.setdefault(norm(e.name), []).append(e)
    for e in stores.get("data", ()):
        ok = True
        for a in alternatives(e.val):
            nm = fname(a.args[0]) if a.op == "call" else ""
            if a.op == "tuple" or nm == "builtins.tuple" or \
                    nm == "builtins.frozenset":
                continue
            if a.op == "obj" or nm.startswith("numpy.") or \
                    nm in ("builtins.list",) or a.op == "param":
                ok = False
                break
            ok = None
        rep.ob("tuple", init, ok, e.loc, "axis values held in %s"
               % show(e.val)[:80])
    dfi = base.find("data")
    e2, r2 = run(prog, dfi, self_cls=base)
    rep.analysed(dfi)
    ok = True
    for a in alternatives(r2.term):
        if a.op == "attr":
            ok = False
        elif a.op != "call":
            ok = None if ok else ok
    rep.ob("fresh", dfi, ok, loc(dfi),
           "hands out its own storage: %s" % show(r2.term)[:100]
           if ok is False else "")
    # 4. ==, hash, < -------------------------------------------------------
    for ci in dims:
        if ci is not base and not ({"__eq__", "__hash__"} &
                                   set(ci.methods)):
            continue
        if "__eq__" in ci.methods and "__hash__" not in ci.methods:
            rep.bad("hash-eq", ci.fullname, ci.fullname,
                    "__eq__ without __hash__: instances are unhashable")
            continue
        feq, fh = ci.find("__eq__"), ci.find("__hash__")
        if feq is None or fh is None:
            rep.unsure("hash-eq", ci.fullname, "", "no __eq__/__hash__")
            continue
        ee, re_ = run(prog, feq, self_cls=ci)
        eh, rh = run(prog, fh, self_cls=ci)
        rep.analysed(feq, fh)
        same, wrong, seen = cmp_fields(ee, re_.term, ("Eq", "NotEq"))
        if not seen:
            rep.unsure("hash-eq", feq, loc(feq), "comparison not understood")
            continue
        if "class" in same:
            same.add("sortprio")
        hs = set()
        ident = False
        for t in subterms(eh, rh.term, control=False):
            if t.op == "attr" and is_param(t.args[0], "self"):
                hs.add(norm(t.args[1]))
            if t.op == "call" and fname(t.args[0]) in (
                    "builtins.id", "builtins.object.__hash__"):
                ident = True
        rep.ob("hash-eq", "%s identity" % ci.fullname, not ident, loc(fh),
               "hash depends on object identity" if ident else "")
        for f in sorted(hs):
            rep.ob("hash-eq", "%s.%s" % (ci.fullname, f), f in same,
                   loc(fh), "" if f in same else
                   "%s enters the hash but == does not compare it" % f)
        for f in ("name", "class", "data", "unit"):
            rep.ob("eq-complete", "%s.%s" % (ci.fullname, f), f in same,
                   loc(feq), "" if f in same else
                   "== ignores %s: different dimensions compare equal" % f)
        for a, b in wrong:
            if {"self._outputformat"} <= {a.lstrip("$"), b.lstrip("$")}:
                continue
            rep.bad("eq-pairs", "%s %s/%s" % (ci.fullname, a, b), loc(feq),
                    "== compares %s with %s" % (a, b))
        flt = ci.find("__lt__")
        if flt is not None:
            el, rl = run(prog, flt, self_cls=ci)
            s2, w2, seen2 = cmp_fields(el, rl.term, ("Lt", "Gt"))
            rep.ob("lt-pairs", flt, (not w2) if seen2 else None, loc(flt),
                   "compares %s" % w2[:2] if w2 else "")
    # 5. deriving -----------------------------------------------------------
    for f in FIELDS:
        for e in stores.get(f, ()):
            ok, det = True, ""
            # omitted, source is a dimension
            asm = none_assume({f: True}, {"Name": True})
            for t, path in resolve(e.val, asm):
                good = t.op == "attr" and is_param(t.args[0], "Name") and \
                    norm(t.args[1]) == f
                if not good:
                    r = free(path)
                    if t.op in ("param", "attr", "const") and r:
                        ok, det = False, "%s not given: becomes %s instead " \
                            "of the source dimension's" % (f, show(t))
                    elif ok:
                        ok = None
            asm = none_assume({f: False}, {})
            for t, path in resolve(e.val, asm):
                if f == "name" and is_param(t, "Name"):
                    ok, det = False, "given name ignored"
                if not is_param(t, f):
                    if t.op in ("param", "attr", "const") and free(path):
                        ok, det = False, "%s given: becomes %s" % (
                            f, show(t))
                    elif ok:
                        ok = None
            rep.ob("derive", "%s.%s" % (init.fullname, f), ok, e.loc, det)
    gi = base.find("__getitem__")
    eng, res = run(prog, gi, self_cls=base)
    rep.analysed(gi)
    for a in alternatives(res.term):
        if is_param(a, "self") or is_const(a):
            continue
        if a.op == "obj" and a.args[0] == "inst":
            rep.bad("slice", "%s class" % gi.fullname, loc(gi),
                    "slicing gives a %s whatever the dimension's class"
                    % getattr(a.args[2], "name", a.args[2]))
            continue
        if a.op != "call":
            rep.unsure("slice", gi, loc(gi), show(a)[:80])
            continue
        f = a.args[0]
        cls_ok = f.op == "attr" and f.args[1] == "__class__" or \
            f.op == "call" and fname(f.args[0]) == "builtins.type"
        if f.op == "ent":
            rep.bad("slice", "%s class" % gi.fullname, loc(gi),
                    "slicing gives a %s whatever the dimension's class"
                    % short(f))
        else:
            rep.ob("slice", "%s class" % gi.fullname, cls_ok or None,
                   loc(gi))
        whole = a.args[1] and is_param(a.args[1][0], "self")
        for fl, pos in (("unit", 2), ("outputformat", 4)):
            v = kwarg(a, fl, pos)
            ok = whole or (v is not None and fl in selfs_in(eng, v))
            rep.ob("slice", "%s.%s" % (gi.fullname, fl), bool(ok), loc(gi),
                   "" if ok else "slicing drops the %s" % fl)
        nm = a.args[1][0] if a.args[1] else None
        ok = whole or nm is not None and "name" in selfs_in(eng, nm)
        rep.ob("slice", "%s.name" % gi.fullname, ok or None, loc(gi))
        dt = kwarg(a, "data", 1)
        ok = dt is not None and "index" in {
            x.args[0] for x in deps(eng, dt) if x.op == "param"}
        rep.ob("slice", "%s.data" % gi.fullname, bool(ok), loc(gi),
               "" if ok else "values not taken at the index")


def free(path):
    """Only None-tests of (other) parameters on the path."""
    for c, _ in path:
        while c.op == "not":
            c = c.args[0]
        if c.op == "cmp" and c.args[0] in ("Is", "IsNot") and \
                any(x.op == "param" for x in c.args[1:]):
            continue
        if c.op == "isinstance" and c.args[0].op == "param":
            continue
        return False
    return True
