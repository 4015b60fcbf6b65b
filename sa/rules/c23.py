"""Requests that can not be met raise instead of returning something."""
from ..engine import cval, is_const, show
from ..lib import fname, loc, run, short
from ..refuse import is_match, member, raises, refusal, swallowed
from .c13 import walk
from .c15 import empty, none_test

RULE = (
    "For each kind of request that can not be met (absent name or "
    "dimension, ambiguous dimension, wrong shape, value out of range, "
    "contradictory arguments) the conditions the function tests are assumed "
    "to turn out as for such a request; a raise reached under exactly these "
    "must exist and not be swallowed. Searches must end in a raise when "
    "nothing matches.")
MIN = 20
DS = "hftools.dataset.dataset:"
AO = "hftools.dataset.arrayobj:"
DM = "hftools.dataset.dim:"
MP = "hftools.networks.multiports:"


def check(prog, rep, tier):
    rep.parts(*[(f, (prog, rep)) for f in (
        searches, blocks, setitem, shapes, arrays, ellipsis, axes,
        interpolation, networks, units, cube, cumulative, dims)])


def get(prog, rep, rule, qual):
    try:
        fi = prog.func(qual)
    except Exception:
        fi = None
    if fi is None:
        rep.unsure(rule, qual, "", "not found")
    else:
        rep.analysed(fi)
    return fi


def go(prog, rep, rule, qual, inline=None, depth=4):
    fi = get(prog, rep, rule, qual)
    if fi is None:
        return None, None, None
    eng, res = run(prog, fi, inline=inline or local(fi), depth=depth)
    return fi, eng, res


def local(fi):
    """follow helpers of the same module that are no methods of arrays"""
    def inl(f):
        return f.module is fi.module and f.cls is fi.cls and \
            f.name.startswith("_") and not f.name.startswith("__")
    return inl


def situation(prog, rep, rule, qual, tests, what, vocab=None, inline=None):
    """tests: [(predicate on a condition, truth)], the first are keys"""
    fi, eng, res = go(prog, rep, rule, qual, inline)
    if fi is None:
        return
    keys = [t for t in tests if len(t) == 2]

    def facts(c):
        for t in tests:
            r = t[0](c)
            if r is True:
                return t[1]
            if r is False:
                return not t[1]
        return None

    def key(c):
        if c.op in ("and", "or", "not"):
            return any(key(x) for x in c.args)
        return any(t[0](c) is not None for t in keys)
    refusal(rep, rule, fi, eng, facts, key, what, vocab=vocab)


# predicates: True: the condition says so, False: it says the opposite,
# None: something else

def p(t, *names):
    return t.op == "param" and t.args[0] in names


def within(name, attr=None):
    """name in ...attr"""
    def f(c):
        if c.op == "cmp" and c.args[0] == "In" and any(
                p(x, name) for x in walk(c.args[1])) and (
                attr is None or any(x.op == "attr" and x.args[1] == attr
                                    for x in walk(c.args[2]))):
            return True
    return f


def inst(name):
    def f(c):
        if c.op == "isinstance" and any(p(x, name) for x in walk(c.args[0])):
            return True
    return f


def compare(c, one, other):
    """(op, swapped) when c compares a term `one` with a term `other`"""
    if c.op != "cmp":
        return None
    op, a, b = c.args
    if one(a) and other(b):
        return op
    if one(b) and other(a):
        return {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(
            op, op)
    return None


def num(*vals):
    return lambda t: is_const(t) and cval(t) in vals


def length(pred):
    return lambda t: t.op == "call" and short(t.args[0]) == "len" and \
        t.args[1] and pred(t.args[1][0])


def attr(name, root=None):
    return lambda t: t.op == "attr" and t.args[1] == name and (
        root is None or any(p(x, root) for x in walk(t)))


def not_one(one):
    """`one` is larger than 1"""
    def f(c):
        op = compare(c, one, num(1))
        if op is not None:
            return {"Eq": False, "NotEq": True, "Gt": True,
                    "LtE": False}.get(op)
        op = compare(c, one, num(2))
        if op is not None:
            return {"GtE": True, "Lt": False}.get(op)
    return f


def differ(one, other):
    def f(c):
        op = compare(c, one, other)
        return {"Eq": False, "NotEq": True}.get(op)
    return f


def given(name):
    def f(c):
        x = none_test(c)
        if x is not None and name in leaves(x) and leaves(x) <= {
                "dims", "info", name}:
            return False
        if p(c, name):
            return True
    return f


def caught(exc):
    def f(c):
        if c.op == "exc" and fname(c.args[2]).endswith(exc):
            return True
    return f


def valued(*table):
    """a predicate that evaluates comparisons of terms with known values;
    table: (predicate on a term, number)"""
    def val(t):
        if is_const(t):
            v = cval(t)
            return v if isinstance(v, (int, float)) and not isinstance(
                v, bool) else None
        for q, v in table:
            if q(t):
                return v
        return None

    def f(c):
        if c.op != "cmp":
            return None
        a, b = val(c.args[1]), val(c.args[2])
        if a is None or b is None or is_const(c.args[1]) and is_const(
                c.args[2]):
            return None
        return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b,
                "Gt": a > b, "GtE": a >= b}.get(c.args[0])
    return f, True


# ---------------------------------------------------------------------------

def searches(prog, rep):
    rule = "search"
    for q in (AO + "_hfarray.dims_index", AO + "Dims.get_matching_dim",
              AO + "Dims.matching_index", AO + "DimsList.get_matching_dim",
              AO + "DimsList.matching_index"):
        fi, eng, res = go(prog, rep, rule, q)
        if fi is None:
            continue
        rs = [e for e in raises(eng) if not e.loops and not swallowed(e)]
        free = [e for e in rs if all(
            c.op == "isinstance" or c.op == "cmp" for c, q_ in e.guards)]
        if free:
            rep.ob(rule, fi, True, free[0].loc, "nothing found")
        elif rs:
            rep.unsure(rule, fi, rs[0].loc, "guarded raise")
        elif calls_out(eng, fi):
            rep.unsure(rule, fi, loc(fi), "delegates")
        else:
            rep.ob(rule, fi, False, loc(fi), "no error when no dimension "
                   "matches: %s is returned" % show(res.term)[:60])


DELEG = {"index", "next", "dims_index", "matching_index", "get_matching_dim"}


def calls_out(eng, fi):
    return any(e.kind == "call" and short(e.obj) in DELEG
               for e in eng.events)


def blocks(prog, rep):
    rule = "absent-name"
    situation(prog, rep, rule, DS + "DataBlock.replace_dim",
              [(within("olddim"), False), (inst("olddim"), True)],
              "replacing a dimension, by name, that is not in the block")
    situation(prog, rep, rule, DS + "DataBlock.replace_dim",
              [(within("olddim"), False), (inst("olddim"), False)],
              "replacing a dimension that is not in the block")
    situation(prog, rep, rule, DS + "DataBlock.set_outputformat",
              [(within("name"), False)],
              "the output format of a variable that does not exist")

    def element(c):
        if c.op == "sub" and c.args[0].op == "call" and short(
                c.args[0].args[0]) == "is_matrix_name":
            return True
    q = DS + "DataBlock.__getitem__"
    for e, what in ((False, "reading a variable that does not exist"),
                    (True, "reading an element of a matrix that does not "
                     "exist")):
        def nomatrix(c):
            if c.op == "cmp" and c.args[0] == "In" and any(
                    x.op == "call" and short(x.args[0]) == "is_matrix_name"
                    for x in walk(c.args[1])):
                return True
            if c.op == "call" and short(c.args[0]) == "ismatrix":
                return True
        situation(prog, rep, rule, q,
                  [(caught("KeyError"), True), (element, e),
                   (nomatrix, False), (within("key"), False)], what)
    situation(prog, rep, "duplicate-dims", DS + "subset_datablock_by_dims",
              [valued((length(lambda t: p(t, "dims")), 3),
                      (length(lambda t: t.op == "obj"), 2))],
              "dimensions given twice")


def setitem(prog, rep):
    def m(c):
        if c.op == "cmp" and c.args[0] == "In" and any(
                x.op == "call" and short(x.args[0]) == "is_matrix_name"
                for x in walk(c.args[1])):
            return True
    situation(prog, rep, "ivar-shape", DS + "DataBlock.__setitem__",
              [valued((length(attr("dims", "value")), 2)),
               (within("key", "ivardata"), True), (inst("value"), False, 0),
               (m, False, 0)],
              "replacing an independent variable by an array that is not "
              "one dimensional",
              vocab=lambda c: c.op == "cmp")


def shapes(prog, rep):
    for q, what in (("DataBlock.filter", "filtering"),
                    ("DataBlock.sort", "sorting")):
        for n in (2, 3):
            situation(prog, rep, "one-dimension", DS + q,
                      [valued((lambda t: t.op == "attr" and t.args[1] ==
                               "ndim" or length(attr("dims"))(t) or length(
                                   attr("shape"))(t), n))],
                      "%s with an array of %d dimensions" % (what, n),
                      vocab=lambda c: False)


def arrays(prog, rep):
    q = AO + "_hfarray.__new__"
    situation(prog, rep, "both-arguments", q,
              [(given("info"), True), (given("dims"), True)],
              "both dims and info given")
    rule = "dims-shape"

    def rank(t):
        return t.op == "attr" and t.args[1] == "ndim" or length(
            attr("shape"))(t)

    ln = length(lambda t: not attr("shape")(t) and
                not attr("default_dim")(t))
    for n, m in ((1, 2), (2, 1)):
        situation(prog, rep, rule, AO + "_hfarray.verify_dimension",
                  [valued((ln, n), (rank, m))],
                  "%d dims for %d axes" % (n, m))
    fi = get(prog, rep, rule, q)
    if fi is None:
        return
    eng, res = run(prog, fi, inline=lambda f: False, depth=3)
    ver = [e for e in eng.events if e.kind == "call" and
           short(e.obj) == "verify_dimension"]
    own = [e for e in raises(eng) if any(
        compare(c, ln, rank) is not None for c, _ in e.guards)]
    sets = [e for e in eng.events if e.kind == "store_attr" and
            e.name in ("_dims", "dims")]
    late = [v for v in ver if not v.guards and all(
        s.seq < v.seq for s in sets)]
    if late or own:
        rep.ob(rule, fi, True, (late or own)[0].loc, "verified")
    elif any(v.guards for v in ver):
        rep.unsure(rule, fi, ver[0].loc, "verified on some paths")
    elif any(e.kind == "call" and "verify" in short(e.obj) or
             e.kind == "call" and "check" in short(e.obj)
             for e in eng.events):
        rep.unsure(rule, fi, loc(fi), "other check")
    else:
        rep.ob(rule, fi, False, loc(fi), "an array is created without "
               "comparing its dims with its number of axes")

    def nodims(c):
        x = none_test(c)
        if x is not None and leaves(x) <= {"dims", "info", None}:
            return True
        if c.op == "param" and c.args[0] in ("dims", "info"):
            return False
        if c.op == "hasattr":
            return False
        op = compare(c, rank, num(0))
        if op is not None:
            return {"Eq": False, "NotEq": True, "Gt": True}.get(op)
        op = compare(c, rank, length(attr("default_dim")))
        if op is not None:
            return {"LtE": False, "Gt": True, "Lt": False,
                    "GtE": True}.get(op)
        return None
    refusal(rep, rule, fi, eng, nodims,
            lambda c: any(attr("default_dim")(x) for x in walk(c)),
            "more axes than default dimensions and no dims",
            vocab=lambda c: True)


def leaves(t):
    if t.op == "phi":
        return leaves(t.args[1]) | leaves(t.args[2])
    if t.op == "param":
        return {t.args[0]}
    if is_const(t) and cval(t) is None:
        return {None}
    return {"?"}


def ellipsis(prog, rep):
    def many(c):
        return not_one(lambda t: length(lambda x: True)(t) or
                       t.op == "call" and short(t.args[0]) in (
                           "sum", "count"))(c)

    def other(c):
        if c.op == "cmp" and c.args[0] == "Is":
            return True
        if c.op == "isinstance":
            return True

    def plain(c):
        if c.op in ("isinstance", "or", "and") or c.op == "cmp" and \
                c.args[0] in ("Is", "In"):
            return True
    situation(prog, rep, "ellipsis", AO + "_hfarray.__getitem__",
              [(many, True), (plain, False, 0)],
              "an index with several Ellipsis",
              vocab=lambda c: True)


def axes(prog, rep):
    rule = "absent-dimension"
    ax = "axis"

    def cls(c):
        if c.op == "call" and short(c.args[0]) == "issubclass":
            return True
        if c.op == "isinstance" and any(
                fname(x) == "builtins.type" for x in walk(c.args[1])):
            return True

    def other(c):
        if none_test(c) is not None:
            return False
        if c.op == "isinstance" and not cls(c):
            return False

    def found(n):
        def f(c):
            if c.op != "cmp":
                return None
            for k in range(4):
                op = compare(c, length(lambda t: True), num(k))
                if op is not None:
                    return {"Eq": n == k, "NotEq": n != k, "Gt": n > k,
                            "GtE": n >= k, "Lt": n < k,
                            "LtE": n <= k}.get(op)
            return None
        return lambda c: f(c) if f(c) is not None else (
            n > 0 if c.op == "obj" else None)

    def const(f):
        """predicate already giving the truth in the situation"""
        return (lambda c: f(c), True)
    for n, what in ((0, "a dimension class that no dimension has"),
                    (2, "a dimension class that several dimensions have")):
        situation(prog, rep, rule, AO + "axis_handler",
                  [const(found(n)), (cls, True, 0), (lambda c: None if
                   other(c) is None else True, False, 0)], what)

    def inax(c):
        if c.op == "cmp" and c.args[0] == "In" and any(
                attr("dims")(x) for x in walk(c.args[2])):
            return True
    situation(prog, rep, rule, AO + "axis_handler",
              [(inax, False), (cls, False, 0),
               (lambda c: True if none_test(c) is not None or c.op ==
                "isinstance" else None, False, 0)],
              "a dimension the array does not have")
    situation(prog, rep, rule, AO + "multiple_axis_handler",
              [(inax, False), (cls, False, 0),
               (lambda c: True if none_test(c) is not None or c.op ==
                "isinstance" else None, False, 0)],
              "one of several dimensions that the array does not have")
    fi, eng, res = go(prog, rep, rule, AO + "multiple_axis_handler")
    if fi is not None:
        def facts(c):
            if none_test(c) is not None:
                return False
            if cls(c):
                return True
            r = found(0)(c)
            if r is not None:
                return r
            if c.op == "isinstance":
                return False
            return None
        refusal(rep, rule, fi, eng, facts,
                lambda c: found(0)(c) is not None and cls(c) is None,
                "a dimension class that no dimension has",
                vocab=lambda c: inax(c) is not None)


def interpolation(prog, rep):
    rule = "interpolation"
    q = DS + "interpolate"
    dims = (lambda t: True if t.op == "cmp" and t.args[0] == "In" and any(
        attr("dims")(x) for x in walk(t.args[2])) else None, True, 0)
    for n in (0, 2):
        situation(prog, rep, rule, q,
                  [valued((length(attr("dims", "newx")), n)),
                   (inst("newx"), True, 0)],
                  "new positions of %d dimensions" % n,
                  vocab=lambda c: True)

    def mode(names):
        def f(c):
            if c.op == "cmp" and c.args[0] in ("In", "Eq", "Is") and \
                    any(p(x, "defaultmode") for x in walk(c.args[1])):
                return True
        return f
    situation(prog, rep, rule, q,
              [(mode(()), False), dims, (inst("newx"), False, 0)],
              "an unknown interpolation mode",
              vocab=lambda c: False)

    def allin(c):
        if c.op == "call" and short(c.args[0]) == "all" and any(
                x.op == "call" and short(x.args[0]) == "any"
                for x in walk(c)):
            return True
    situation(prog, rep, rule, q,
              [(allin, False), (mode(()), True, 0), dims],
              "positions that are not present, without interpolation",
              vocab=lambda c: True)
    q = "hftools.math:interpolate"

    def one(name, side):
        return lambda t: t.op == "call" and short(t.args[0]) in (
            side, "a" + side) and any(p(x, name) for x in walk(t)) and \
            not any(p(x, "x" if name == "xi" else "xi") for x in walk(t))
    for lo, hi, what in ((.5, 1.5, "a position below the data"),
                         (1.5, 3, "a position above the data")):
        situation(prog, rep, rule, q, [
            valued((one("xi", "min"), lo), (one("xi", "max"), hi),
                   (one("x", "min"), 1), (one("x", "max"), 2))], what)


def networks(prog, rep):
    rule = "network"

    def kind(c):
        if c.op == "isinstance" and p(c.args[0], "twoport"):
            return True
    situation(prog, rep, rule, "hftools.networks.noise:passive_noise",
              [(kind, False)], "noise of a network that is not Y, Z or S")

    def shape(t):
        return t.op == "sub" and attr("shape")(t.args[0])
    for n in (1, 3):
        situation(prog, rep, rule, MP + "_TwoPortArray.__init__",
                  [valued((shape, n))], "%dx%d parameters of a two-port" %
                  (n, n), vocab=lambda c: True)
    for n, o in (("ZArray", "YArray"), ("YArray", "ZArray")):
        def conv(c):
            if c.op == "isinstance" and any(
                    fname(x).endswith(o) for x in walk(c.args[1])):
                return True
            if c.op == "call" and short(c.args[0]) == "ismatrix":
                return True
        def last(i):
            return lambda t: shape(t) and is_const(t.args[1]) and cval(
                t.args[1]) == i
        for k, m in ((2, 3), (3, 2)):
            situation(prog, rep, rule, MP + n + ".__init__",
                      [valued((last(-1), k), (last(-2), m)),
                       (conv, True, 0)],
                      "%s of a %dx%d %s" % (n, k, m, o))

    def el(c):
        if c.op == "and" and any(x.op == "call" and short(
                x.args[0]) == "ismatrix" for x in c.args):
            return True
        if c.op == "call" and short(c.args[0]) == "ismatrix":
            return True

    def same(c):
        if c.op == "isinstance" and any(
                attr("__class__")(x) for x in walk(c.args[1])) or \
                c.op == "and" and any(
                    attr("__class__")(x) for x in walk(c)):
            return True

    def port(c):
        if c.op == "isinstance" and same(c) is None:
            return True
    situation(prog, rep, rule, MP + "_MultiPortArray.__init__",
              [(el, False), (same, False, 0), (port, True, 0),
               (given("Z0"), False, 0)],
              "converting single elements to another kind of parameters",
              vocab=lambda c: False)
    situation(prog, rep, "both-arguments", MP + "_MultiPortArray.__new__",
              [(given("info"), True), (given("dims"), True)],
              "both dims and info given")


def units(prog, rep):
    def m(c):
        if is_match(c):
            return True
        x = none_test(c)
        if x is not None and is_match(x):
            return False

    def number(c):
        if c.op == "call" and short(c.args[0]) in ("isrealnumber",
                                                   "isnumber"):
            return True
    situation(prog, rep, "unit-text", "hftools.constants.si_units:"
              "string_number_with_unit_to_value",
              [(m, False), (number, False, 0)],
              "a text that is no number with unit")


def cube(prog, rep):
    blocks = length(lambda t: p(t, "association_list"))
    full = length(lambda t: not p(t, "association_list"))
    for n, m in ((3, 4), (5, 4)):
        situation(prog, rep, "hypercube", "hftools.file_formats.merge:"
                  "association_list_in_hypercube_order",
                  [valued((blocks, n), (full, m))],
                  "%d blocks for a hypercube of %d" % (n, m))


def cumulative(prog, rep):
    for n in ("cumsum", "cumprod"):
        situation(prog, rep, "cumulative", AO + "_hfarray." + n,
                  [(given("axis"), False)],
                  "%s without an axis" % n)


def dims(prog, rep):
    situation(prog, rep, "dim-index", DM + "DimBase.__getitem__",
              [(inst("index"), False),
               (lambda c: True if c.op == "and" and any(
                   inst("index")(x) for x in c.args) else None, False, 0)],
              "an index that is neither slice nor array")
