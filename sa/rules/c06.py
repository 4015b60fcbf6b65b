"""Copies are complete and independent."""
from ..effects import Alias
from ..engine import T, alternatives, cval, is_const, show, subterms
from ..lib import all_funcs, deps, is_array_ctor, kwarg, loc, run, short
from ..model import AnalysisBroken, ClassInfo

RULE = (
    "For copy() of every data class (array, multiport array, DataDict, "
    "DataBlock, both Comments classes) and for DataBlock/DataDict.view: "
    "every value stored into the result, and the result itself, is traced "
    "through the alias relation; sharing a mutable part (array buffer for "
    "copy, container for view and copy) with the original is a violation.  "
    "Each field that makes up the object's state must be stored into the "
    "result from the same field of the original on every path.")
MIN = 12

D = "hftools.dataset."
IMMUT = {"blockname", "_blockname", "xname", "_xname", "outputformat",
         "_outputformat", "unit", "name"}
# class -> state fields that a copy has to carry (alternative spellings)
STATE = {
    "hftools.dataset.dataset:DataBlock": [
        ("blockname", "_blockname"), ("comments",), ("vardata",),
        ("ivardata",), ("xname", "_xname"),
        ("outputformat", "_outputformat")],
    "hftools.dataset.dataset:DataDict": [("order",)],
    "hftools.dataset.comments:Comments": [("fullcomments",), ("property",)],
    "hftools.file_formats.common:Comments": [("fullcomments",),
                                             ("property",)],
}


def pol(prog):
    HF = prog.cls("hftools.dataset.arrayobj:_hfarray")
    DD = prog.cls("hftools.dataset.dataset:DataDict")

    def inl(fi):
        if fi.cls is not None and fi.cls.subclass_of(HF):
            return False
        if fi.cls is DD and fi.name in ("copy", "view"):
            return False
        return fi.name not in ("__getattr__", "__getitem__", "__setattr__",
                               "__init__")
    return inl


def pairs(eng, t, seen=()):
    """Values of a mapping built from the term ``t`` (pairs or mapping);
    None in the result: not understood."""
    if t in seen:
        return
    for x in alternatives(t):
        if x.op in ("obj", "tuple"):
            items = x.args if x.op == "tuple" else None
            if items is None:
                for en in eng.contents_log.get(x, ()):
                    if en[0] == "del" or en[0].startswith("op:"):
                        continue
                    v = en[2]
                    if en[0] == "app" or v.op == "tuple":
                        if v.op == "tuple" and len(v.args) == 2:
                            yield v.args[1]
                        else:
                            yield v
                    else:
                        yield v
            else:
                for v in items:
                    yield v.args[1] if v.op == "tuple" and \
                        len(v.args) == 2 else v
        elif x.op == "call" and x.args[0].op == "attr" and \
                x.args[0].args[1] in ("items", "iteritems"):
            yield x.args[0].args[0]
        elif x.op == "call" and short(x.args[0]) in ("dict", "list", "tuple",
                                                     "items") and x.args[1]:
            for v in pairs(eng, x.args[1][0], seen + (t,)):
                yield v
        else:
            yield x


def stored(eng, res):
    """(field or None, value, loc, event) of everything put in the result."""
    for e in eng.events:
        if e.kind in ("store_attr", "set_prop"):
            yield e.name, e.val, e.loc, e
        elif e.kind == "store_sub":
            k = None
            if e.obj.op == "attr" and e.obj.args[1] == "__dict__" and \
                    is_const(e.key):
                k = cval(e.key)
            yield k, e.val, e.loc, e
        elif e.kind in ("call", "new") and (
                is_array_ctor(e.obj) or short(e.obj) in (
                    "DataDict", "update", "dict", "OrderedDict")):
            for a in e.args:
                for v in pairs(eng, a):
                    yield None, v, e.loc, e


def check_class(prog, rep, cname, meth, view):
    try:
        ci = prog.cls(cname)
    except AnalysisBroken:
        return
    fi = ci.find(meth)
    if fi is None or not hasattr(fi, "node"):
        rep.unsure("independent", cname + "." + meth, "", "no such method")
        return
    eng, res = run(prog, fi, inline=pol(prog), self_cls=ci)
    rep.analysed(fi)
    al = Alias(eng)
    bad = []

    def shared(v, elem=True):
        r = al.ident(v)
        if not view and elem:
            r = r | al.data(v)
        return any(x.op == "param" and x.args[0] == "self" for x in r)

    if res.term is not None and shared(res.term):
        bad.append("the result is (part of) the original")
    for name, v, where, e in stored(eng, res):
        if view and name == "comments" or name in IMMUT:
            continue
        if shared(v, name is None or "data" in name):
            bad.append("%s is shared with the original (%s)"
                       % (name or "an element", where))
    rep.ob("independent", "%s.%s" % (cname, meth), not bad, loc(fi),
           "; ".join(sorted(set(bad))))
    for names in STATE.get(cname, ()):
        ok = None
        got = []
        for name, v, where, e in stored(eng, res):
            if name not in names:
                continue
            ds = deps(eng, v, control=False)
            src = any(x.op == "attr" and x.args[1] in names and
                      base_self(x.args[0]) for x in ds)
            got.append((src, e))
        good = [e for s, e in got if s]
        if not good:
            # stored from the original in some other way?
            if whole_self(eng, res):
                ok = None
            else:
                ok = False
        else:
            ok = any(only_own_guard(eng, e, names) for e in good)
            if got and got[-1][0] is False and good:
                ok = None
        rep.ob("complete", "%s.%s:%s" % (cname, meth, names[0]), ok, loc(fi),
               "" if ok else "field %r of the result is not taken from the "
               "original on every path" % names[0])


def base_self(t):
    return t.op == "param" and t.args[0] == "self"


def whole_self(eng, res):
    """copy.copy(self)/deepcopy(self), __dict__ copies and the like."""
    for e in eng.events:
        if e.kind == "call":
            for a in list(e.args) + [v for _, v in e.kw]:
                if base_self(a):
                    return True
                if a.op == "attr" and a.args[1] == "__dict__" and \
                        base_self(a.args[0]):
                    return True
    return False


def only_own_guard(eng, e, names):
    for c, p in e.guards:
        ds = deps(eng, c)
        a = {x.args[1] for x in ds if x.op == "attr" and
             base_self(x.args[0])}
        if a and not a <= set(names):
            return False
        if not a:
            if c.op == "inloop" or c.op == "loopguard":
                continue
            return False
    return True


def check(prog, rep, tier):
    for cname in STATE:
        check_class(prog, rep, cname, "copy", False)
    for cname in ("hftools.dataset.dataset:DataBlock",
                  "hftools.dataset.dataset:DataDict"):
        check_class(prog, rep, cname, "view", True)
    HF = prog.cls("hftools.dataset.arrayobj:_hfarray")
    for ci in prog.all_classes():
        if not ci.subclass_of(HF):
            continue
        fi = ci.methods.get("copy")
        if fi is None:
            continue
        eng, res = run(prog, fi, inline=lambda f: False, self_cls=ci)
        rep.analysed(fi)
        al = Alias(eng)
        sh = [t for t in alternatives(res.term)
              if any(base_self(x) for x in al.any(t))]
        rep.ob("independent", "%s.copy" % ci.fullname, not sh, loc(fi),
               "result shares its data with the original: %s"
               % [show(t)[:80] for t in sh] if sh else "")
    # containers built from a caller's list
    for cname in ("hftools.dataset.comments:Comments",
                  "hftools.file_formats.common:Comments"):
        ci = prog.cls(cname)
        fi = ci.methods["__init__"]
        eng, res = run(prog, fi, self_cls=ci)
        rep.analysed(fi)
        al = Alias(eng)
        bad = []
        for e in eng.events:
            if e.kind == "store_attr" and base_self(e.obj):
                for r in al.ident(e.val):
                    if r.op in ("param", "defobj") and \
                            r.args[0] not in ("self",):
                        bad.append("%s is the caller's object (%s)"
                                   % (e.name, e.loc))
        rep.ob("independent", cname + ".__init__", not bad, loc(fi),
               "; ".join(bad))
