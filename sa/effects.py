"""Alias and effect queries on top of the value-flow engine."""
from .engine import NONE, T, cval, is_const
from .model import ClassInfo, Ext, FuncInfo, ModVar

IMMUT_ATTRS = {"shape", "dtype", "ndim", "size", "itemsize", "nbytes",
               "strides", "name", "unit", "outputformat", "__name__",
               "__class__", "xname", "blockname", "_blockname", "_xname",
               "_outputformat", "_name", "_unit", "sortprio", "data",
               "fullname", "__array_interface__", "_dims", "dims", "_data", "info"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "t"}

ALIAS_EXT = {"numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray",
             "numpy.asfortranarray", "numpy.atleast_1d", "numpy.atleast_2d",
             "numpy.atleast_3d", "numpy.ravel", "numpy.reshape",
             "numpy.squeeze", "numpy.transpose", "numpy.swapaxes",
             "numpy.rollaxis", "numpy.moveaxis", "numpy.real", "numpy.imag",
             "numpy.diagonal", "numpy.require", "numpy.expand_dims",
             "numpy.broadcast_to", "numpy.ndarray.transpose",
             "numpy.ndarray.view", "numpy.ndarray.squeeze",
             "numpy.ndarray.__getitem__", "numpy.ndarray.reshape",
             "numpy.ndarray.ravel", "numpy.ndarray.swapaxes",
             "numpy.ndarray.diagonal", "numpy.asarray_chkfinite",
             "numpy.flipud", "numpy.fliplr", "numpy.flip"}
SAME_EXT = {"numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray",
            "numpy.asfortranarray", "numpy.atleast_1d", "numpy.atleast_2d",
            "numpy.atleast_3d", "numpy.require", "builtins.iter",
            "builtins.reversed", "builtins.enumerate", "builtins.zip"}
ALIAS_METH = {"view", "transpose", "reshape", "ravel", "squeeze", "swapaxes",
              "diagonal", "reorder_dimensions", "__getitem__", "add_dim",
              "__array__"}
PART_METH = {"get", "pop", "setdefault", "popitem", "values", "items", "keys",
             "itervalues", "iteritems", "next", "__next__", "__iter__",
             "get_matching_dim"}
DATA_MUT = {"sort", "fill", "resize", "put", "itemset", "partition",
            "setflags", "byteswap", "setfield"}
MUT_EXT0 = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask",
            "numpy.fill_diagonal", "numpy.random.shuffle", "random.shuffle",
            "numpy.put_along_axis", "heapq.heapify", "heapq.heappush",
            "numpy.ndarray.sort", "numpy.ndarray.fill",
            "numpy.ndarray.__setitem__", "numpy.ndarray.__iadd__",
            "numpy.ndarray.__imul__", "numpy.ndarray.__isub__",
            "numpy.ndarray.resize", "numpy.ndarray.put"}


def _kwarg(t, name):
    for k, v in t.args[2]:
        if k == name:
            return v
    return None


def _is_array_ctor(eng, f):
    if f.op == "ent" and isinstance(f.args[0], ClassInfo):
        return "numpy.ndarray" in f.args[0].ext_bases()
    if f.op == "attr" and f.args[1] == "__class__":
        return True
    return False


class Alias(object):
    def __init__(self, eng, treat_global=True):
        self.eng = eng
        self.memo = {}

    def ident(self, t, seen=()):
        """Roots whose object graph contains the very object ``t``."""
        return self._walk(t, "ident", seen)

    def data(self, t, seen=()):
        """Roots whose array buffer ``t`` may share."""
        return self._walk(t, "data", seen)

    def any(self, t):
        return self.ident(t) | self.data(t)

    def _walk(self, t, mode, seen):
        if not isinstance(t, T) or t in seen or len(seen) > 60:
            return frozenset()
        key = (t, mode)
        if key in self.memo:
            return self.memo[key]
        r = self._step(t, mode, seen + (t,))
        if not seen:
            self.memo[key] = r
        return r

    def _step(self, t, mode, seen):
        w = lambda x: self._walk(x, mode, seen)
        u = lambda xs: frozenset().union(*[w(x) for x in xs]) if xs \
            else frozenset()
        op, a = t.op, t.args
        eng = self.eng
        if op == "param":
            return frozenset([t])
        if op == "defobj":
            return frozenset([t])
        if op == "ent":
            return frozenset([t]) if isinstance(a[0], (ModVar, ClassInfo)) \
                else frozenset()
        if op == "phi":
            return u([a[1], a[2]])
        if op == "loop":
            info = eng.loopinfo.get(a[0], {}).get(a[1])
            if not info:
                return frozenset()
            return u([info[0]] + list(info[1]))
        if op in ("and", "or"):
            return u(list(a))
        if op == "attr":
            if a[1] in IMMUT_ATTRS:
                return frozenset()
            if a[1] in VIEW_ATTRS:
                return self._walk(a[0], "data", seen) | (
                    self._walk(a[0], "ident", seen)
                    if mode == "data" else frozenset()) \
                    if mode == "data" else frozenset()
            return w(a[0])
        if op == "sub":
            if a[0].op == "call" and a[0].args[0].op == "attr" and \
                    a[0].args[0].args[1] == "keys":
                return frozenset()
            if a[1].op == "slice" and mode == "ident":
                return frozenset()       # a slice is a new object
            if a[0].op == "obj" or a[0].op == "tuple":
                return self._contents(a[0], mode, seen)
            return w(a[0])
        if op == "elem":
            if a[0].op == "obj" or a[0].op == "tuple":
                return self._contents(a[0], mode, seen)
            return w(a[0])
        if op == "enter":
            return frozenset()
        if op == "star":
            return w(a[0])
        if op == "call":
            return self._call(t, mode, seen)
        return frozenset()

    def _contents(self, o, mode, seen):
        if o.op == "tuple":
            return frozenset().union(*[self._walk(x, mode, seen)
                                       for x in o.args]) if o.args \
                else frozenset()
        out = frozenset()
        for e in self.eng.contents_log.get(o, ()):
            if e[0] == "del" or e[0].startswith("op:"):
                continue
            out |= self._walk(e[2], mode, seen)
        return out

    def _call(self, t, mode, seen):
        f, args = t.args[0], t.args[1]
        eng = self.eng
        w = lambda x, m=mode: self._walk(x, m, seen)
        a0 = args[0] if args else _kwarg(t, "data") or _kwarg(t, "a")
        if _is_array_ctor(eng, f):
            if mode == "ident":
                return frozenset()
            cp = _kwarg(t, "copy")
            if cp is None and len(args) > 3:
                cp = args[3]
            if cp is not None and not (is_const(cp) and cval(cp)):
                return (w(a0, "data") | w(a0, "ident")) if a0 is not None \
                    else frozenset()
            return frozenset()
        if f.op == "ent" and isinstance(f.args[0], Ext):
            n = f.args[0].name
            if n in ("numpy.array",):
                cp = _kwarg(t, "copy")
                if cp is None and len(args) > 2:
                    cp = args[2]
                if cp is not None and not (is_const(cp) and cval(cp)):
                    return w(a0) if a0 is not None else frozenset()
                return frozenset()
            if n.startswith("numpy.matrix") or n == "numpy.mat":
                return frozenset()
            if n in ALIAS_EXT:
                if mode == "data":
                    return (w(a0, "data") | w(a0, "ident")) if a0 is not None \
                        else frozenset()
                if n in SAME_EXT:
                    return w(a0) if a0 is not None else frozenset()
                return frozenset()
            if n in SAME_EXT:
                return frozenset().union(*[w(x) for x in args]) if args \
                    else frozenset()
            if n in ("builtins.next",):
                return w(a0) if a0 is not None else frozenset()
            return frozenset()
        if f.op == "attr":
            n = f.args[1]
            if n in ALIAS_METH:
                if mode == "data":
                    return w(f.args[0], "data") | w(f.args[0], "ident")
                return frozenset()
            if n in PART_METH:
                b = f.args[0]
                if b.op in ("obj",):
                    return self._contents(b, mode, seen)
                return w(b)
            if n == "astype":
                cp = _kwarg(t, "copy")
                if cp is not None and not (is_const(cp) and cval(cp)):
                    return w(f.args[0])
                return frozenset()
            return frozenset()
        if f.op == "ent" and isinstance(f.args[0], FuncInfo):
            fi = f.args[0]
            if fi.cls is not None and fi.name in ALIAS_METH and args:
                if mode == "data":
                    return w(args[0], "data") | w(args[0], "ident")
            return frozenset()
        return frozenset()


def mutations(eng, alias=None, repo_mutators=()):
    """(event, roots, what) for every event that may modify a root."""
    al = alias or Alias(eng)
    out = []
    for e in eng.events:
        roots, what = frozenset(), ""
        if e.kind == "store_attr":
            roots = al.ident(e.obj)
            what = "assigns .%s" % e.name
        elif e.kind == "store_sub":
            roots = al.ident(e.obj) | al.data(e.obj)
            what = "assigns an element"
        elif e.kind == "aug":
            roots = al.ident(e.obj) | al.data(e.obj)
            what = "augmented assignment"
            if e.obj.op == "const" or _scalarish(e.val):
                roots = frozenset()
        elif e.kind in ("del_sub", "del_attr"):
            roots = al.ident(e.obj)
            what = "deletes from it"
        elif e.kind == "mut":
            roots = al.ident(e.obj)
            if e.name in DATA_MUT:
                roots = roots | al.data(e.obj)
            what = "calls .%s()" % e.name
        elif e.kind == "call":
            f = e.obj
            tgt = None
            for k, v in e.kw:
                if k == "out" and v is not NONE:
                    roots = roots | al.any(v)
                    what = "passes it as out="
            if f.op == "ent" and isinstance(f.args[0], Ext) and \
                    f.args[0].name in MUT_EXT0 and e.args:
                roots = roots | al.any(e.args[0])
                what = "calls %s on it" % f.args[0].name
            if f.op == "attr" and f.args[1] in repo_mutators:
                roots = roots | al.ident(f.args[0])
                what = "calls mutating method .%s()" % f.args[1]
            if f.op == "ent" and isinstance(f.args[0], FuncInfo) and \
                    f.args[0].cls is not None and e.args and \
                    f.args[0].name in repo_mutators:
                roots = roots | al.ident(e.args[0])
                what = "calls mutating method .%s()" % f.args[0].name
        if roots:
            out.append((e, roots, what))
    return out


def _scalarish(v):
    if v is None:
        return False
    if v.op == "const" and isinstance(cval(v), str):
        return True
    if v.op in ("fstr", "fmtval"):
        return True
    if v.op == "bin" and v.args[0] == "Mod" and v.args[1].op == "const" and \
            isinstance(cval(v.args[1]), str):
        return True
    if v.op == "tuple":
        return True
    return False


# domain types shared by the rules -------------------------------------------

PARAM_HINTS = {"db": "DataBlock", "ds": "DataBlock", "datablock": "DataBlock",
               "indb": "DataBlock", "dataset": "DataBlock"}


def domain(prog):
    DB = prog.cls("hftools.dataset.dataset:DataBlock")
    DD = prog.cls("hftools.dataset.dataset:DataDict")
    HF = prog.cls("hftools.dataset.arrayobj:hfarray")
    DIM = prog.cls("hftools.dataset.dim:DimBase")
    CM = prog.cls("hftools.dataset.comments:Comments")

    def dd_elem(t):
        b = t.args[0]
        if b.op == "attr" and b.args[1] == "ivardata":
            return DIM
        if b.op == "attr" and b.args[1] == "vardata":
            return HF
        return None

    attr_types = {("DataBlock", "vardata"): DD, ("DataBlock", "ivardata"): DD,
                  ("DataBlock", "comments"): CM}
    elem_types = {"DataDict": dd_elem}
    hints = {"DataBlock": DB}
    return dict(attr_types=attr_types, elem_types=elem_types), hints


def param_hints(fi, hints):
    return {p: hints[PARAM_HINTS[p]] for p in fi.params
            if p in PARAM_HINTS and PARAM_HINTS[p] in hints}
