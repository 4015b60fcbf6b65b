"""The ordered dictionary keeps keys and key order in step."""
from ..engine import alternatives, cval, is_const, show, subterms
from ..effects import mutations
from ..lib import deps, fname, is_param, loc, run, short
from ..model import AnalysisBroken

RULE = (
    "Class invariant of DataDict (order lists exactly keys that are present, "
    "each once, in insertion order), checked per method on the event "
    "sequence with helpers inlined: every dict removal primitive on self is "
    "paired with removal of the same key from order under no stronger guard "
    "than membership, every inherited dict method that removes keys is "
    "overridden, every insertion appends the same key guarded by absence, "
    "rename puts the new key at the old key's index and stores the old "
    "value, and iteration, keys, values and items are driven by order.")
MIN = 12
DD = "hftools.dataset.dataset:DataDict"

REMOVE = {"__delitem__", "pop", "popitem", "clear"}
INSERT = {"__setitem__", "setdefault", "update"}


def dprim(e):
    """name of the dict primitive an event calls on self, with its args."""
    if e.kind != "call":
        return None
    n = fname(e.obj)
    args = e.args
    if n.startswith("builtins.dict.") and args and is_param(args[0], "self"):
        return n.split(".")[-1], args[1:]
    if e.obj.op == "attr" and e.obj.args[0].op == "super":
        return e.obj.args[1], args
    return None


def is_order(t):
    return t.op == "attr" and t.args[1] == "order" and \
        is_param(t.args[0], "self")


def weak(guards, more, key=None):
    """guards beyond ``more`` only test membership."""
    for c, p in guards:
        if (c, p) in more:
            continue
        if c.op == "cmp" and c.args[0] in ("In", "NotIn"):
            continue
        if c.op == "exc" or c.op.startswith("exc"):
            continue
        return False
    return True


def removals(eng):
    """(key term or ALL, guards) of removals from order."""
    for e in eng.events:
        if e.kind == "del_sub" and is_order(e.obj):
            v = e.val
            if v.op == "slice":
                yield "ALL", e
            elif v.op == "call" and v.args[0].op == "attr" and \
                    v.args[0].args[1] == "index" and v.args[1]:
                yield v.args[1][0], e
            else:
                yield None, e
        elif e.kind == "mut" and is_order(e.obj):
            if e.name == "remove" and e.args:
                yield e.args[0], e
            elif e.name == "clear":
                yield "ALL", e
            elif e.name == "pop":
                a = e.args[0] if e.args else None
                if a is not None and a.op == "call" and \
                        a.args[0].op == "attr" and \
                        a.args[0].args[1] == "index":
                    yield a.args[1][0], e
                else:
                    yield None, e
        elif e.kind in ("store_attr", "set_prop") and e.name == "order" and \
                is_param(e.obj, "self"):
            yield "NEW", e
        elif e.kind == "store_sub" and is_order(e.obj) and e.key is not None \
                and e.key.op == "slice":
            yield "NEW", e


def insertions(eng):
    for e in eng.events:
        if e.kind == "mut" and is_order(e.obj):
            if e.name in ("append",) and e.args:
                yield e.args[0], e
            elif e.name == "insert" and len(e.args) > 1:
                yield e.args[1], e
            elif e.name in ("extend",):
                yield None, e
        elif e.kind in ("store_attr", "set_prop") and e.name == "order" and \
                is_param(e.obj, "self"):
            yield "NEW", e
        elif e.kind == "store_sub" and is_order(e.obj):
            if e.key is not None and e.key.op == "slice":
                yield "NEW", e
            else:
                yield e.val, e
        elif e.kind == "aug" and is_order(e.obj):
            yield None, e


def full(eng, e):
    """the order event takes over all keys the dict has."""
    v = e.val
    if e.kind == "mut":
        v = e.args[-1] if e.name == "extend" and e.args else None
    if v is None:
        return False
    for t in deps(eng, v, control=False):
        if t.op == "call" and fname(t.args[0]) in (
                "builtins.dict.keys", "builtins.dict.__iter__",
                "builtins.dict.items"):
            return True
        if t.op == "elem" and is_param(t.args[0], "self"):
            return True
        if t.op == "call" and fname(t.args[0]) == "builtins.list" and \
                t.args[1] and is_param(t.args[1][0], "self"):
            return True
        if t.op == "call" and t.args[0].op == "attr" and \
                is_param(t.args[0].args[0], "self") and \
                t.args[0].args[1] in ("keys", "__iter__"):
            return True
    return False


def sync(eng, e):
    """order is only completed with the keys of the dict (no new names)."""
    return full(eng, e) and not any(
        t.op == "param" and t.args[0] not in ("self",)
        for t in deps(eng, e.val, control=True))


def ctor_records(prog, ci):
    """the constructor records the keys it is given in the order."""
    fi = ci.methods.get("__init__")
    if fi is None:
        return False
    eng, res = run(prog, fi, self_cls=ci, depth=5)
    for e in eng.events:
        if e.kind in ("store_attr", "set_prop", "store_sub") and \
                full(eng, e):
            return True
        if e.kind == "mut" and is_order(e.obj) and e.args:
            return True
        p = dprim(e)
        if p and p[0] == "__init__" and len(p[1]) == 0 and not e.kw:
            return True
    return False


def same_key(a, b):
    return a is b or a in ("ALL", "NEW") or a is None


def run_m(prog, ci, name):
    fi = ci.methods.get(name)
    if fi is None:
        return None, None, None
    eng, res = run(prog, fi, self_cls=ci, depth=5)
    return fi, eng, res


def check(prog, rep, tier):
    ci = prog.cls(DD)
    # which traversal methods use order at all
    fi, eng, res = run_m(prog, ci, "__iter__")
    if fi is None:
        rep.bad("iteration", DD, "", "no __iter__: plain dict order is used")
        return
    for m in sorted(REMOVE | INSERT):
        ok = m in ci.methods
        rep.ob("overridden", "DataDict.%s" % m, ok, loc(ci.methods[m])
               if ok else DD, "" if ok else "inherited dict.%s bypasses the "
               "key order" % m)
    recorded = ctor_records(prog, ci)
    for name, fi in sorted(ci.methods.items()):
        if not hasattr(fi, "node") or name == "__init__":
            continue
        eng, res = run(prog, fi, self_cls=ci, depth=5)
        rep.analysed(fi)
        rem = list(removals(eng))
        ins = list(insertions(eng))
        for e in eng.events:
            p = dprim(e)
            if p is None:
                continue
            prim, args = p
            if prim in REMOVE:
                if prim == "clear":
                    good = [x for k, x in rem if k in ("ALL", None) or
                            k == "NEW" and not full(eng, x)]
                elif prim == "popitem":
                    good = [x for k, x in rem if k is not None]
                else:
                    good = [x for k, x in rem if same_key(k, args[0])]
                good = [x for x in good if not (
                    x.kind in ("store_sub", "store_attr") and
                    full(eng, x) and (x.seq < e.seq or any(
                        is_order(t) or t.op == "elem" and
                        is_param(t.args[0], "self") for t in
                        deps(eng, x.val, control=False))))]
                own = [x for x in good if weak(x.guards, e.guards)]
                rep.ob("removal", "%s:%s" % (fi.fullname, prim), bool(own),
                       e.loc, "" if own else "dict.%s without removing the "
                       "same key from the order on the same path" % prim)
            elif prim in INSERT:
                good = [x for k, x in ins if k == "NEW" and
                        x.seq > e.seq or k != "NEW" and
                        prim != "update" and same_key(k, args[0])]
                own = [x for x in good if weak(x.guards, e.guards)]
                if own and not recorded and prim != "update":
                    al = any(full(eng, x) for x in own)
                    rep.ob("insertion-order", "%s:%s" % (fi.fullname, prim),
                           al, e.loc, "" if al else "keys given to the "
                           "constructor are not in the order when a new key "
                           "is appended to it: they end up behind it")
                rep.ob("insertion", "%s:%s" % (fi.fullname, prim), bool(own),
                       e.loc, "" if own else "dict.%s without recording the "
                       "key in the order on the same path" % prim)
        for k, e in ins:
            if e.kind == "mut" and e.name in ("append", "insert"):
                g = any(c.op == "cmp" and c.args[0] == "In" and not p or
                        c.op == "cmp" and c.args[0] == "NotIn" and p
                        for c, p in e.guards)
                rep.ob("no-duplicates", fi.fullname, g, e.loc,
                       "" if g else "key appended to the order without "
                       "testing that it is absent")
    # removal in __delitem__ happens for every present key ------------------
    for name, keyn in (("__delitem__", "key"), ("__setitem__", "key")):
        fi = ci.methods.get(name)
        if fi is None:
            continue
        eng, res = run(prog, fi, self_cls=ci, depth=5)
        got = [e for e in eng.events if (dprim(e) or ("",))[0] == name]
        ok = bool(got) and any(
            weak(e.guards, ()) and not any(
                c.op == "cmp" and (is_order(c.args[2]) or
                                   name == "__setitem__") and
                p == (c.args[0] == "NotIn") for c, p in e.guards)
            for e in got)
        rep.ob("primitive", fi, ok, loc(fi), "" if ok else
               "does not always perform dict.%s" % name)
        for e in got:
            a = dprim(e)[1]
            ok = bool(a) and a[0].op == "param" and \
                a[0].args[0] == fi.params[1] and \
                (name != "__setitem__" or is_param(a[1], fi.params[2]))
            rep.ob("primitive", fi.fullname + " args", ok or None, e.loc)
    # rename -----------------------------------------------------------------
    fi = ci.methods.get("rename")
    if fi is not None:
        eng, res = run(prog, fi, self_cls=ci, depth=5)
        old, new = fi.params[1:3]
        pos, val, dele = [], [], []
        for e in eng.events:
            if e.kind == "store_sub" and is_order(e.obj) and \
                    is_param(e.val, new):
                pos.append((e, index_of(e.key if e.key is not None else
                                        e.args[0], old)))
            if e.kind == "mut" and is_order(e.obj) and e.name == "insert" \
                    and len(e.args) > 1 and is_param(e.args[1], new):
                pos.append((e, index_of(e.args[0], old)))
            p = dprim(e)
            if p and p[0] == "__setitem__" and is_param(p[1][0], new):
                val.append((e, p[1][1]))
            if p and p[0] in ("__delitem__", "pop") and \
                    is_param(p[1][0], old):
                dele.append(e)
        rebuilt = any(k == "NEW" and not sync(eng, x)
                      for k, x in removals(eng))
        ok = any(i for _, i in pos) or (None if rebuilt or any(
            i is None for _, i in pos) else False)
        rep.ob("rename-position", fi, ok, loc(fi), "" if ok else
               "the new key is not put at the old key's position")
        rep.ob("rename-removes", fi, bool(dele) or (None if rebuilt else
                                                    False), loc(fi),
               "" if dele else "the old key stays in the dictionary")
        for e, v in val:
            ok = any(x.op == "sub" and is_param(x.args[0], "self") and
                     is_param(x.args[1], old) or
                     x.op == "call" and short(x.args[0]) in
                     ("pop", "get", "__getitem__")
                     for x in deps(eng, v, control=False))
            rep.ob("rename-value", fi, ok, e.loc, "" if ok else
                   "renamed key gets %s instead of the old value" % show(v))
        # renaming to itself must not lose the key
        for e in dele:
            g = any(c.op == "cmp" and c.args[0] in ("Eq", "NotEq", "Is",
                                                    "IsNot")
                    for c, _ in e.guards)
            if not g:
                # deletion is followed by the insertion: position lost
                rep.ob("rename-self", fi, None, e.loc)
            else:
                rep.holds("rename-self", fi, e.loc)
    # traversal ---------------------------------------------------------------
    for name in ("__iter__", "keys", "values", "items", "iteritems"):
        fi = ci.methods.get(name)
        if fi is None:
            if name != "iteritems":
                rep.bad("traversal", "DataDict." + name, DD,
                        "inherited dict.%s does not follow the key order"
                        % name)
            continue
        eng, res = run(prog, fi, self_cls=ci, depth=4,
                       inline=lambda f: True)
        rep.analysed(fi)
        bad = [what for e, roots, what in mutations(eng)
               if any(is_param(r, "self") for r in roots)]
        rep.ob("traversal-pure", fi, not bad, loc(fi),
               "iterating modifies the dictionary: %s" % bad[:1]
               if bad else "")
        ds = set(deps(eng, res.term))
        for e in eng.events:
            if e.kind == "yield" and e.val is not None:
                ds |= set(deps(eng, e.val))
        uses = any(is_order(t) for t in ds) or any(
            t.op == "elem" and is_param(t.args[0], "self") for t in ds) or \
            any(e.kind == "enter" and fname(e.obj).endswith("__iter__")
                for e in eng.events)
        raw = any(t.op == "call" and fname(t.args[0]).startswith(
            "builtins.dict.") for t in ds)
        srt = any(t.op == "call" and fname(t.args[0]) in
                  ("builtins.sorted", "builtins.reversed", "builtins.set")
                  for t in ds)
        ok = False if (raw and not uses) or srt else (True if uses else None)
        rep.ob("traversal", fi, ok, loc(fi), "" if ok else
               "does not follow the insertion order")
    # every present key is visited: keys only known to dict are appended
    fi, eng, res = run_m(prog, ci, "__iter__")
    ok = any((dprim(e) or ("",))[0] in ("keys", "__iter__", "items")
             for e in eng.events)
    rep.ob("traversal-complete", fi, ok or None, loc(fi))


def index_of(t, old):
    """t is order.index(old): True / False (index of something else)/None."""
    if t is None:
        return None
    if t.op == "call" and t.args[0].op == "attr" and \
            t.args[0].args[1] == "index" and t.args[1]:
        return is_param(t.args[1][0], old)
    if is_const(t):
        return False
    if t.op == "param":
        return False
    if t.op == "call" and fname(t.args[0]) == "builtins.len":
        return False
    return None
