"""Axis bookkeeping: what an expression does to the axes of an array, and
what a dims expression does to the list of dimensions."""
from .engine import T, alternatives, cval, is_const, show
from .lib import fname, is_array_ctor, is_param, kwarg, short
from .model import Ext, FuncInfo

KEEP = {"view", "copy", "astype", "conj", "conjugate", "round", "__array__",
        "real", "imag", "cumsum", "cumprod", "asarray", "array", "asanyarray",
        "abs", "absolute", "exp", "log", "log10", "sqrt", "angle", "isnan",
        "ascontiguousarray", "byteswap", "clip", "unwrap"}
REDUCE = {"sum", "mean", "std", "var", "min", "max", "prod", "any", "all",
          "ptp", "argmin", "argmax", "median"}


def meth(t):
    """(name, receiver, args, kw) of an array operation call, or None."""
    if t.op != "call":
        return None
    f, args, kw = t.args[:3]
    if f.op == "attr":
        return f.args[1], f.args[0], args, kw
    if f.op == "ent":
        e = f.args[0]
        if isinstance(e, Ext) and e.name.startswith("numpy.") and args:
            return e.name.split(".")[-1], args[0], args[1:], kw
        if isinstance(e, FuncInfo) and e.cls is not None and args and \
                "numpy.ndarray" in e.cls.ext_bases():
            return e.name, args[0], args[1:], kw
    if f.op == "bound":
        return f.args[1].name, f.args[0], args, kw
    return None


def dims_base(t):
    """X when ``t`` is the unmodified dims of X (through Dims/list/tuple)."""
    t = unwrap_seq(t)
    if t.op == "attr" and t.args[1] in ("_dims", "dims", "info"):
        return t.args[0]
    return None


def unwrap_seq(t):
    while True:
        if t.op == "call" and len(t.args[1]) == 1 and not t.args[2] and \
                short(t.args[0]) in ("Dims", "tuple", "list"):
            t = t.args[1][0]
        elif t.op == "sub" and t.args[1].op == "slice" and all(
                is_const(x) and cval(x) is None for x in t.args[1].args):
            t = t.args[0]
        else:
            return t


def dim_entries(eng, t):
    """Description of a dims expression: list of entries
    ('all', X) / ('part', X, slice) / ('elt', val, guards, loops) /
    ('ins'|'set', key, val) / ('del', key) / ('?', term)."""
    t = unwrap_seq(t)
    b = dims_base(t)
    if b is not None:
        return [("all", b)]
    if t.op == "sub" and t.args[1].op == "slice":
        b = dims_base(t.args[0])
        if b is not None:
            return [("part", b, t.args[1])]
    if t.op == "bin" and t.args[0] == "Add":
        return dim_entries(eng, t.args[1]) + dim_entries(eng, t.args[2])
    if t.op == "tuple":
        return [("elt", x, (), ()) for x in t.args]
    if t.op == "obj" and t.args[0] in ("list", "gen", "tuple"):
        out = []
        for en in eng.contents_log.get(t, ()):
            k = en[0]
            if k == "app":
                out.append(("elt", en[2], en[3], en[4]))
            elif k == "ext":
                out += dim_entries(eng, en[2])
            elif k in ("ins", "set"):
                out.append((k, en[1], en[2]))
            elif k == "del":
                out.append(("del", en[1]))
            else:
                out.append(("?", en[2]))
        return out
    return [("?", t)]


def data_ops(t, n=0):
    """(base, [ops outermost last]) of an array expression; ops are
    (name, args, kw) of the axis-changing operations."""
    ops = []
    while n < 30:
        n += 1
        if t.op == "call" and is_array_ctor(t.args[0]):
            a = kwarg(t, "data", 0)
            if a is None or kwarg(t, "dims") is not None and n > 1:
                break
            if kwarg(t, "dims") is not None:
                break
            t = a
            continue
        m = meth(t)
        if m is not None:
            name, recv, args, kw = m
            if name in KEEP:
                t = recv
                continue
            if name in ("transpose", "squeeze", "take", "repeat", "swapaxes",
                        "rollaxis", "moveaxis", "expand_dims", "reshape",
                        "__getitem__", "add_dim", "reorder_dimensions") or \
                    name in REDUCE:
                ops.append((name, args, kw))
                t = recv
                continue
            break
        if t.op == "attr" and t.args[1] in ("real", "imag"):
            t = t.args[0]
            continue
        if t.op == "attr" and t.args[1] == "T":
            ops.append(("transpose", (), ()))
            t = t.args[0]
            continue
        if t.op == "sub":
            ops.append(("__getitem__", (t.args[1],), ()))
            t = t.args[0]
            continue
        break
    return t, ops[::-1]


def labelled(eng):
    """(data term, dims term, event) of every place that labels an array."""
    for e in eng.events:
        if e.kind in ("call", "new") and is_array_ctor(e.obj):
            d = e.args[0] if e.args else dict(e.kw).get("data")
            l = dict(e.kw).get("dims")
            if l is None and len(e.args) > 1:
                l = e.args[1]
            if d is not None and l is not None:
                yield d, l, e
        elif e.kind in ("store_attr", "set_prop") and e.name in (
                "dims", "_dims", "info") and not is_param(e.obj, "self"):
            yield e.obj, e.val, e


def op_arg(op, name, pos=None):
    for k, v in op[2]:
        if k == name:
            return v
    if pos is not None and pos < len(op[1]) and \
            not any(a.op == "star" for a in op[1][:pos + 1]):
        return op[1][pos]
    return None
