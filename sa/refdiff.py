"""Comparison of a function's normal form (summary.py) with the specified one.

The specification (sa/spec/*.json) is the set of effects each function has to
have.  An effect that is missing, or that differs in an operator, a constant,
an argument, a condition or an operand, is a definite difference; everything
else that differs (another algorithm, other data structures) leaves the
function undecided: nothing is reported for it.
"""
import json
import os
from fractions import Fraction

from .algebra import RF
from .summary import N, TooBig, cubes_of, gcubes, key_of, ordered, text

# names of the functions there are, and of those specified (specs.py)
EXISTING = SPECIFIED = CLASSES = None
# attributes that the specified functions store
FIELDS = set()
YES, NO = N("const", "bool:True"), N("const", "bool:False")

HERE = os.path.dirname(os.path.abspath(__file__))


# -- storage -----------------------------------------------------------------

def dump(path, table):
    """table: {fullname: (effects, yields)}"""
    ids, nodes = {}, []

    def put(n):
        if n.id in ids:
            return ids[n.id]
        k = [put(x) for x in n.kids]
        ids[n.id] = len(nodes)
        nodes.append([n.op, n.label] + k)
        return ids[n.id]
    fs = {}
    for f in sorted(table):
        e, y = table[f]
        fs[f] = [[put(x) for x in e], [put(x) for x in y]]
    with open(path, "w") as fh:
        fh.write('{"nodes": [\n')
        fh.write(",\n".join(json.dumps(n) for n in nodes))
        fh.write('\n],\n"functions": {\n')
        fh.write(",\n".join("%s: %s" % (json.dumps(f), json.dumps(fs[f]))
                            for f in sorted(fs)))
        fh.write("\n}}\n")


def load(path):
    with open(path) as fh:
        d = json.load(fh)
    ns = []
    for n in d["nodes"]:
        ns.append(N(n[0], n[1], [ns[i] for i in n[2:]]))
        if n[0] == "setattr":
            FIELDS.add(n[1])
    return {f: ([ns[i] for i in e], [ns[i] for i in y])
            for f, (e, y) in d["functions"].items()}


# -- differences ---------------------------------------------------------------

class Edit(object):
    __slots__ = ("kind", "r", "c", "sure")

    def __init__(self, kind, r, c, sure):
        self.kind, self.r, self.c, self.sure = kind, r, c, sure

    @property
    def key(self):
        return (self.kind, self.r.id if self.r is not None else None,
                self.c.id if self.c is not None else None)

    def __repr__(self):
        return "%s: %s -> %s" % (self.kind, short(self.r), short(self.c))


def short(n, k=160):
    if n is None:
        return "nothing"
    t = text(n)
    return t if len(t) < k else t[:k] + "..."


OPPOSITE = [{"min", "max"}, {"any", "all"}, {"real", "imag"},
            {"sin", "cos"}, {"floor", "ceil"}, {"zeros", "ones"},
            {"append", "insert"}, {"argmin", "argmax"}, {"sum", "prod"},
            {"cumsum", "cumprod"}, {"log", "log10"}, {"log10", "log2"},
            {"std", "var"}, {"upper", "lower"}, {"startswith", "endswith"},
            {"abs", "real"}, {"radians", "degrees"}, {"deg2rad", "rad2deg"},
            {"lstrip", "rstrip"}, {"strip", "lstrip"}, {"strip", "rstrip"},
            {"data", "dims"}, {"shape", "ndim"}, {"exp", "log"},
            {"float", "int"}, {"sinh", "cosh"}, {"T", "H"},
            {"append", "extend"}, {"argsort", "sort"}, {"ceil", "round"},
            {"floor", "round"}, {"floor", "fix"}, {"first", "last"}]
SAME = [{"items", "iteritems"}, {"asarray", "asanyarray", "array",
                                 "ascontiguousarray"},
        {"abs", "absolute"}, {"transpose", "T"}, {"open"}]

# wrappers that change nothing in most uses
NEUTRAL = {"list", "tuple", "iter", "asarray", "asanyarray", "array", "bool",
           "str", "unicode", "text_type", "copy", "view", "int", "float",
           "Dims", "keys", "dict", "ascontiguousarray", "squeeze", "cast_str",
           "path", "set", "frozenset", "encode", "decode", "cast_unicode"}


def tail(label):
    return label.split(":")[-1].split(".")[-1]


def zero(n):
    return n.op == "const" and n.label.split(":", 1)[1] in (
        "None", "False", "0", "''", "0.0", "()")


def const_num(n):
    if n.op != "const":
        return None
    t, v = n.label.split(":", 1)
    return (t, v)


def contains(big, small):
    seen = set()
    todo = list(big.kids)
    while todo:
        n = todo.pop()
        if n is small:
            return True
        if n.id in seen:
            continue
        seen.add(n.id)
        todo.extend(n.kids)
    return False


def peel(r, c):
    """r is one operation around c: the operation's name"""
    if c.op in ("const", "ent"):
        return None
    if r.op == "call" and c in r.kids[1:]:
        f = r.kids[0]
        if f.op == "ent":
            return tail(f.label)
        if f.op == "attr":
            return f.label
    if r.op == "call":
        for k in r.kids[1:]:
            if k.op == "kw" and k.kids[0] is c and r.kids[0].op == "ent":
                return tail(r.kids[0].label)
        if r.kids[0].op == "attr" and r.kids[0].kids[0] is c:
            return r.kids[0].label
    if r.op == "un" and r.kids[0] is c:
        return "minus"
    if r.op == "attr" and r.kids[0] is c:
        return r.label
    return None


def bare(n):
    """what is copied into an array"""
    while n.op == "call" and len(n.kids) == 2 and \
            n.kids[0].op == "ent" and n.kids[0].label.startswith("Ext:") and \
            tail(n.kids[0].label) in ("array", "asarray", "asanyarray"):
        n = n.kids[1]
    return n


def swapped(r, c):
    """what differs, where one cannot be the other"""
    # the element of a loop for a fixed one
    if r.op == "elem" and c.op == "const" and given(r) and not any(
            n.op in ("tuple", "table") for n in nodes(r)):
        return "constant for element"
    if r.op == "call" and r.kids[0].op == "ent":
        f = tail(r.kids[0].label)
        ext = r.kids[0].label.startswith("Ext:")
        # one of what is chosen from
        if ext and f == "where" and len(r.kids) == 4 and \
                any(bare(k) is bare(c) for k in r.kids[2:]):
            return "alternative dropped"
        # the size of one of two terms, of which one is left out
        if ext and f in ("abs", "absolute") and len(r.kids) == 2 and \
                r.kids[1].op == "bin" and c in r.kids[1].kids and \
                r.kids[1].label in ("Add", "Sub"):
            return "term left out"
    # what a function of ours makes of its arguments
    if r.op == "sub" and r.kids[1].op == "const" and \
            r.kids[0].op == "call" and r.kids[0].kids[0].op == "ent" and \
            not r.kids[0].kids[0].label.startswith("Ext:") and \
            c.op == "param" and \
            c in [k.kids[0] if k.op == "kw" else k
                  for k in r.kids[0].kids[1:]]:
        return "call left out"
    # a position that is looked up for one that is worked out
    if r.op == "call" and len(r.kids) == 2 and r.kids[0].op == "attr" and \
            r.kids[0].label == "index" and c.op == "bin" and \
            c.label in ("Add", "Sub") and r.kids[1] in c.kids and \
            any(k.op == "const" for k in c.kids):
        return "arithmetic for position"
    # some of the elements for all
    if c.op == "new" and c.label.startswith("list") and len(c.kids) == 1 \
            and r.op == "sub" and whole(r.kids[1]):
        e = c.kids[0]
        s = r.kids[0]
        if e.label == "app" and e.kids[0].op == "elem" and \
                e.kids[0].kids[0] is s and e.kids[2].kids == (s,) and \
                e.kids[1].op == "guards" and len(e.kids[1].kids) == 1:
            return "elements left out"
    if c.op == "call" and c.kids[0].label == "Ext:builtins.sorted" and \
            len(c.kids) == 2 and r.op == "call" and len(r.kids) == 1 and \
            r.kids[0].op == "attr" and r.kids[0].label == "keys" and \
            r.kids[0].kids[0] is c.kids[1]:
        return "sorted added"
    return None


COMPARE = {"Eq": lambda x, y: x == y, "NotEq": lambda x, y: x != y,
           "Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y,
           "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y}


def numbered(r, c):
    """do comparisons of a number of things with numbers differ?"""
    tests = []
    for n in (r, c):
        if n.label not in COMPARE:
            return None
        x, y = n.kids
        f = COMPARE[n.label]
        for s, k, flip in ((x, y, False), (y, x, True)):
            if count(s) and k.op == "const" and number(k.label) is not None:
                break
        else:
            return None
        tests.append((s, f, number(k.label), flip))
    if tests[0][0] is not tests[1][0]:
        return None
    if max(t[2] for t in tests) > 1000:
        return None
    for i in range(int(max(t[2] for t in tests)) + 2):
        v = [f(k, i) if flip else f(i, k) for _, f, k, flip in tests]
        if v[0] != v[1]:
            return True
    return False


def layers(r, c):
    """r is up to three operations around c: their names"""
    out = []
    if c.op in ("const", "ent") or r.size <= c.size or not contains(r, c):
        return None
    while len(out) < 3:
        p = peel(r, c)
        if p is not None:
            return out + [p]
        inner = None
        if r.op in ("call",):
            ks = ([r.kids[0].kids[0]] if r.kids[0].op == "attr" else []) + \
                list(r.kids[1:])
            ks = [k.kids[0] if k.op == "kw" else k for k in ks]
            ks = [k for k in ks if contains(k, c)]
            if len(ks) != 1:
                return None
            out.append(r.kids[0].label if r.kids[0].op == "attr" else
                       tail(r.kids[0].label))
            inner = ks[0]
        elif r.op in ("attr", "un", "sub") and contains(r.kids[0], c):
            out.append(r.label if r.op == "attr" else
                       "minus" if r.op == "un" else "subscript")
            inner = r.kids[0]
        if inner is None:
            return None
        r = inner
    return None


def values(n):
    return [k.kids[0] if k.op == "kw" else k for k in n.kids]


def given(n):
    """made from what the caller passes"""
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x.op in ("param", "arg"):
            return True
        if x.id not in seen:
            seen.add(x.id)
            todo.extend(x.kids)
    return False


def plain(n):
    """a value that is given, or looked up by what is given"""
    return n.op in ("param", "attr", "sub", "call") and given(n)


def path(n):
    """a parameter, or a part of one"""
    while n.op == "attr" or n.op == "sub" and n.kids[1].op == "const":
        n = n.kids[0]
    return n.op in ("param", "arg")


def whole(n):
    """[:]"""
    return slicing(n) and all(k.label == "NoneType:None" for k in n.kids
                              if k.op != "ent")


def slicing(n):
    return n.op == "slice" or \
        n.op == "call" and n.kids[0].label == "Ext:builtins.slice"


def diff(r, c, memo):
    """edits that turn r into c"""
    if r is c:
        return []
    k = (r.id, c.id)
    if k not in memo:
        memo[k] = [Edit("replaced", r, c, False)]
        memo[k] = _diff(r, c, memo)
    return memo[k]


def _diff(r, c, memo):
    if r.op in ("guards", "anyof") and c.op in ("guards", "anyof"):
        v = gsem(r, c, memo.get("not"), memo.get("eff"))
        if v is False:
            return []
        if v is True:
            return [Edit("condition", r, c, True)]
        return gdiff(r, c, memo)
    if r.op == c.op == "fn":
        e = N("in")
        f = lambda n: [N("effect", "", (N("ret", "", (n.kids[0],)),
                                        N("guards"), e))] + list(n.kids[1:])
        if r.kids and c.kids:
            v, es, w = compare((f(r), []), (f(c), []))
            if v == "same":
                return []
            if v == "differs":
                return es
        return [Edit("replaced", r, c, False)]
    if r.op == c.op == "table":
        return table_diff(r, c)
    if r.op in ("and", "or", "not", "phi") or \
            c.op in ("and", "or", "not", "phi"):
        a, b = N("phi", "", (r, YES, NO)), N("phi", "", (c, YES, NO))
        if r.op == "phi" or c.op == "phi":
            a, b = r, c
        a, b = ordered(a), ordered(b)
        if a is not None and a is b:
            return []
    if r.op == c.op == "cmp" and r.label != c.label:
        v = numbered(r, c)
        if v is not None:
            return [Edit("comparison", r, c, True)] if v else []
    for x, y in ((r, c), (c, r)):
        if x.op == "cmp" and x.label == "Is" and y in x.kids and \
                y.op == "param" and N("const", "NoneType:None") in x.kids:
            return [Edit("None/empty", r, c, True)]
    if r.op == c.op and r.op in ("and", "or"):
        a = [x for x in r.kids if x not in c.kids]
        b = [x for x in c.kids if x not in r.kids]
        if len(a) == 1 and len(b) == 1:
            return diff(a[0], b[0], memo)
        if a and not b:
            return [Edit("condition dropped", r, c, True)]
        if b and not a:
            return [Edit("condition added", r, c, True)]
        return [Edit("condition", r, c, False)]
    if {r.op, c.op} == {"and", "or"} and set(r.kids) == set(c.kids):
        return [Edit("and/or", r, c, True)]
    if r.op in ("and", "or") and c in r.kids:
        return [Edit("condition dropped", r, c, True)]
    if c.op in ("and", "or") and r in c.kids:
        return [Edit("condition added", r, c, True)]
    if r.op == "not" and r.kids[0] is c or c.op == "not" and c.kids[0] is r:
        return [Edit("negated", r, c, True)]
    if r.op == "const" and c.op == "const":
        ra, ca = const_num(r), const_num(c)
        sure = True
        if ra[1] == ca[1] or {ra[1], ca[1]} <= {"0", "0.0", "False"} or \
                {ra[1], ca[1]} <= {"1", "1.0", "True"}:
            sure = False
        try:
            if ra[0] in ("int", "float") and ca[0] in ("int", "float") and \
                    float(ra[1]) == float(ca[1]):
                sure = False
        except ValueError:
            pass
        return [Edit("constant", r, c, sure)]
    if r.op == "param" and c.op == "param":
        return [Edit("parameter", r, c, True)]
    if r.op == "const" and plain(c) or c.op == "const" and plain(r):
        return [Edit("constant", r, c, (r.label if r.op == "const" else
                                        c.label).split(":")[0] in (
            "int", "float", "complex", "NoneType"))]
    for x, y, w in ((r, c, "left out"), (c, r, "added")):
        if x.op == "sub" and x.kids[0] is y and y.op not in (
                "const", "ent", "new") and not (
                    y.op == "elem" and x.kids[1].op == "const"):
            return [Edit("subscript %s" % w, r, c, not whole(x.kids[1]))]
    if r.op == c.op == "tuple" and len(r.kids) != len(c.kids):
        a = [x for x in r.kids if x not in c.kids]
        b = [x for x in c.kids if x not in r.kids]
        if not (a and b) and not any(k.op == "star" for k in r.kids + c.kids):
            return [Edit("element %s" % ("left out" if a else "added"),
                         r, c, True)]
    if r.op == "arg" and c.op == "arg":
        return [Edit("parameter", r, c, True)]
    if r.op == c.op == "ent":
        return [ent_edit(r, c)]
    v = arith(r, c)
    if v is not None:
        return v
    if r.op == c.op and r.label != c.label and \
            len(r.kids) == len(c.kids) and \
            all(x is y for x, y in zip(r.kids, c.kids)):
        if r.op in ("bin", "cmp", "un"):
            return [Edit("operator", r, c, True)]
        if r.op == "attr":
            return [Edit("attribute", r, c, name_sure(r.label, c.label))]
        if r.op == "raise":
            return [Edit("exception", r, c, False)]
        if r.op in ("setattr", "delattr"):
            return [Edit("attribute", r, c, name_sure(r.label, c.label))]
        if r.op == "kw":
            return [Edit("keyword", r, c, True)]
    if r.op in ("bin", "cmp") and c.op == r.op and \
            r.kids == c.kids[::-1] and r.kids[0] is not r.kids[1]:
        if r.label == c.label:
            return [Edit("operands swapped", r, c,
                         not (r.op == "bin" and r.label in (
                             "Mult", "BitAnd", "BitOr", "BitXor") or
                             r.label == "Add" and not seqlike(r)))]
        if {r.label, c.label} == {"Lt", "LtE"}:
            return [Edit("operator", r, c, True)]
    if r.op == c.op == "setattr" and r.label != c.label and \
            r.kids[0] is c.kids[0] and name_sure(r.label, c.label) and \
            not r.label.startswith("_") and not c.label.startswith("_") and \
            renamed(r.kids[1], c.kids[1], r.label, c.label):
        return [Edit("attribute", r, c, True)]
    x, y = (n.kids[0] if n.op == "not" else n for n in (r, c))
    if x.op == y.op == "cmp" and {x.label, y.label} == {"Eq", "Lt"} and \
            set(x.kids) == set(y.kids) and not any(
                k.op in ("const", "loop", "idx", "nth", "self", "unk")
                for k in x.kids):
        return [Edit("operator", r, c, True)]
    for x, y, w in ((r, c, "left out"), (c, r, "added")):
        p = layers(x, y) if x.op == "call" else None
        if p is not None and any(q not in NEUTRAL for q in p):
            return [Edit("%s %s" % (", ".join(p), w), r, c, True)]
    v = told(r, c)
    if v is not None:
        return v
    if further(r, c):
        return [Edit("further test", r, c, True)]
    if r.op == c.op and r.label == c.label and len(r.kids) == len(c.kids):
        # swapped operands
        if r.op in ("call", "tuple", "sub", "setitem", "phi") and \
                r.kids != c.kids and \
                [k.label if k.op == "kw" else 0 for k in r.kids] == \
                [k.label if k.op == "kw" else 0 for k in c.kids] and \
                sorted(x.id for x in values(r)) == \
                sorted(x.id for x in values(c)):
            return [Edit("operands swapped", r, c, True)]
        def along(cs):
            out = {}
            for a, b in zip(r.kids, cs):
                for e in diff(a, b, memo):
                    if r.op in ("bin", "un") and e.kind == "constant" and \
                            e.r.op != e.c.op:
                        # arithmetic written another way
                        e = Edit(e.kind, e.r, e.c, False)
                    out[e.key] = e
            return list(out.values())
        es = along(c.kids)
        if r.op == "cmp" and r.label in ("Eq", "Is") and \
                not all(e.sure for e in es):
            e2 = along(c.kids[::-1])
            if all(e.sure for e in e2):
                es = e2
        if len(es) == 2 and es[0].r is es[1].c and es[0].c is es[1].r and \
                (r.op == "isinstance" or
                 r.op == "call" and r.kids[0].label ==
                 "Ext:builtins.issubclass"):
            return [Edit("operands swapped", r, c, True)]
        return es
    if r.op == c.op == "call" and r.kids[0].op == c.kids[0].op == "attr" \
            and unfilled(r.kids[0].kids[0]) is \
            unfilled(c.kids[0].kids[0]) and \
            r.kids[0].label != c.kids[0].label and any(
                {r.kids[0].label, c.kids[0].label} <= s for s in OPPOSITE) \
            and (set(r.kids[1:]) <= set(c.kids[1:]) or
                 set(c.kids[1:]) <= set(r.kids[1:])):
        return [Edit("method", r, c, True)]
    if r.op == c.op == "call" and r.kids[0] is c.kids[0]:
        a = [x for x in r.kids[1:] if x not in c.kids[1:]]
        b = [x for x in c.kids[1:] if x not in r.kids[1:]]
        if a and not b:
            return [Edit("argument dropped", r, c,
                         not all(zero(x.kids[0] if x.op == "kw" else x) or
                                 harmless(r, x) for x in a))]
        if b and not a:
            return [Edit("argument added", r, c,
                         not all(zero(x.kids[0] if x.op == "kw" else x) or
                                 harmless(c, x) for x in b))]
    for x, y, w in ((r, c, "left out"), (c, r, "added")):
        if x.op == "bin" and x.label in ("Sub", "BitAnd", "BitOr", "BitXor") \
                and y in x.kids and not (x.label == "Sub" and
                                         x.kids[1] is y):
            o = x.kids[0] if x.kids[1] is y else x.kids[1]
            if o.op == "new" and o.kids or o.op == "tuple" and o.kids or \
                    o.op == "call":
                return [Edit("operand %s" % w, r, c, True)]
    if r.op == c.op == "attr" and r.label != c.label and \
            name_sure(r.label, c.label):
        a, b = r.kids[0], c.kids[0]
        if peel(a, b) in NEUTRAL or peel(b, a) in NEUTRAL:
            return [Edit("attribute", r, c, True)]
    for x, y in ((r, c), (c, r)):
        if slicing(y) and x.op in ("param", "elem") and \
                aspects(y) == {(x.id, "size")}:
            return [Edit("size for content", r, c, True)]
    a, b = tower(r), tower(c)
    if a[0] is b[0] and len(a[1]) == len(b[1]) == 1 and \
            a[1] != b[1] and any({a[1][0], b[1][0]} <= s for s in OPPOSITE + APART):
        return [Edit("method", r, c, True)]
    # one of them against each of them
    for x, y in ((r, c), (c, r)):
        v = picked(y)
        if v is not None and v is x:
            return [Edit("one for each", r, c, True)]
    for x, y in ((r, c), (c, r)):
        if x.op == "new" and x.label.startswith("list") and \
                len(x.kids) == 1 and x.kids[0].label == "app" and \
                not x.kids[0].kids[2].kids and y.op == "call" and \
                y.kids[0].op == "attr" and y.kids[0].label == "split" and \
                y.kids[0].kids[0] is x.kids[0].kids[0]:
            return [Edit("split", r, c, True)]
    e = swapped(r, c)
    if e is not None:
        return [Edit(e, r, c, True)]
    p = peel(r, c)
    if p is not None:
        return [Edit("%s left out" % p, r, c, p not in NEUTRAL)]
    p = peel(c, r)
    if p is not None:
        return [Edit("%s added" % p, r, c, p not in NEUTRAL)]
    if r.op == "phi" and c in r.kids[1:]:
        # what is empty, for another empty value
        alt = r.kids[1] if c is r.kids[2] else r.kids[2]
        return [Edit("alternative dropped", r, c, not (
            alt is r.kids[0] and c.op == "const" and
            c.label.split(":", 1)[-1] in FALSE))]
    if c.op == "phi" and r in c.kids[1:]:
        alt = c.kids[1] if r is c.kids[2] else c.kids[2]
        return [Edit("alternative added", r, c, not (
            emptiness(c.kids[0]) and related(c.kids[0], c.kids[1:]) and
            alt.op not in ("call", "nth", "bin", "sub")))]
    if r.op == c.op == "new" and r.label == c.label:
        return entries(r, c, memo)
    if r.op == c.op == "filled" and r.kids[0] is c.kids[0] and \
            set(c.kids) < set(r.kids):
        return [Edit("store left out", r, c, True)]
    a, b = aspects(r), aspects(c)
    if a and b and not a & b and \
            {x for x, _ in a} == {x for x, _ in b}:
        return [Edit("size for content", r, c, True)]
    if r.op == c.op == "bin" and r.label != c.label and \
            len(r.kids) == 2 and (r.kids[0] is c.kids[0] or
                                  r.kids[1] is c.kids[1]):
        return [Edit("operator", r, c, False)]
    return [Edit("replaced", r, c, False)]


def unfilled(n):
    return n.kids[0] if n.op == "filled" else n


def chosen(n):
    """a test for being one of some constants: of what, and which"""
    if n.op != "cmp" or len(n.kids) != 2:
        return None
    a, b = n.kids
    if n.label == "Eq":
        if a.op == "const":
            a, b = b, a
        ks = (b,)
    elif n.label == "In" and b.op == "tuple":
        ks = b.kids
    else:
        return None
    if a.op == "const" or not all(k.op == "const" and k.label.startswith(
            ("str:", "bytes:")) for k in ks):
        return None
    return a, ks


def told(r, c):
    """forms known to mean something else"""
    if kinds(r, c):
        return [Edit("class", r, c, True)]
    if one_of(r, c) or one_of(c, r):
        return [Edit("one for all", r, c, True)]
    if only_last(r, c) or only_last(c, r):
        return [Edit("last for all", r, c, True)]
    if stripped(r, c):
        return [Edit("prefix", r, c, True)]
    for x, y, w in ((r, c, "left out"), (c, r, "added")):
        if x.op == "call" and len(x.kids) == 2 and \
                tail(x.kids[0].label) == "sorted" and \
                contents(x.kids[1]) is not None and \
                contents(x.kids[1]) == contents(y):
            return [Edit("sorted %s" % w, r, c, True)]
        if x.op == "cmp" and x.label == "In" and y.op == "call" and \
                y.kids[0].op in ("ent", "attr") and \
                tail(y.kids[0].label) == "__contains__" and \
                y.kids[1:] == x.kids[::-1] and x.kids[1].op == "call":
            return [Edit("own keys", r, c, True)]
        if x.op == "sub" and x.kids[1].op == "const" and \
                x.kids[0].op == "call" and len(x.kids[0].kids) == 2 and \
                tail(x.kids[0].kids[0].label) == "sorted" and \
                x.kids[0].kids[1].op == "tuple" and \
                y in x.kids[0].kids[1].kids:
            return [Edit("sorted %s" % w, r, c, True)]
        if x.op == "sub" and x.kids[1].op == "const" and \
                x.kids[0].op == "attr" and x.kids[0].label == "flat" and \
                x.kids[0].kids[0] is y:
            return [Edit("flat %s" % w, r, c, True)]
        if x.op == "call" and x.kids[0].op == "attr" and \
                len(x.kids) == 1 and x.kids[0].label in ("min", "max") and \
                y.op == "sub" and y.kids[1].op == "const" and \
                y.kids[0] is x.kids[0].kids[0] and not any(
                    n.op in ("ent", "attr") and "sort" in n.label or
                    n.label.endswith((".unique", "linspace", "arange"))
                    for n in nodes(y.kids[0])):
            return [Edit("one for all", r, c, True)]
        m = chosen(x)
        if m is not None and y.op == "call" and y.kids[0].op == "attr" and \
                y.kids[0].label in ("startswith", "endswith") and \
                y.kids[0].kids[0] is m[0] and len(y.kids) == 2 and \
                y.kids[1] in m[1]:
            return [Edit("beginning for all", r, c, True)]
    a, b = chosen(r), chosen(c)
    if a is not None and b is not None and a[0] is b[0] and \
            {k.label for k in a[1]} != {k.label for k in b[1]}:
        return [Edit("choices", r, c, True)]
    if r.op == c.op == "cmp" and r.label != c.label and \
            {r.label, c.label} <= {"Eq", "Lt", "LtE"}:
        a, b = ([k for k in n.kids if k.op != "const"] for n in (r, c))
        if a == b and len(a) == 1 and all(
                k.label.startswith("str:") for n in (r, c) for k in n.kids
                if k.op == "const"):
            return [Edit("operator", r, c, True)]
    if c.op == "attr" and c.label in ("hour", "minute", "second", "day",
                                      "month", "year", "days", "seconds") and \
            contains(r, c.kids[0]):
        return [Edit("part of a time", r, c, True)]
    if r.op == "bin" and r.label in ("Add", "Sub") and c.op == "call" and \
            c.kids[0].op == "attr" and c.kids[0].label == "replace" and \
            c.kids[0].kids[0] in r.kids and any(
                k.op == "call" and tail(k.kids[0].label) == "timedelta"
                for k in r.kids):
        return [Edit("replace for a sum", r, c, True)]
    return None


APART = [{"T", "reshape"}, {"transpose", "reshape"}, {"min", "nanmin"},
         {"max", "nanmax"}, {"mean", "nanmean"}, {"sum", "nansum"},
         {"mean", "median"}, {"std", "nanstd"}, {"take", "compress"}]


def tower(n):
    """what operations are applied to, and their names; wrappers that change
    nothing left out"""
    out = []
    while True:
        if n.op == "call" and n.kids[0].op == "attr":
            name, inner = n.kids[0].label, n.kids[0].kids[0]
        elif n.op == "call" and len(n.kids) > 1 and \
                n.kids[0].op == "ent" and n.kids[0].label.startswith(
                    "Ext:") and n.kids[1].op != "kw":
            name, inner = tail(n.kids[0].label), n.kids[1]
        elif n.op == "attr" and n.label == "T":
            name, inner = "T", n.kids[0]
        else:
            return n, out
        if name not in NEUTRAL:
            out.append(name)
        n = inner


def picked(n):
    """n is what a fixed position of a list built in a loop holds: what each
    position of it holds"""
    at = []
    while n.op == "sub" and n.kids[1].op == "const" and \
            n.kids[1].label.startswith("int:"):
        at.append(int(n.kids[1].label[4:]))
        n = n.kids[0]
    if not at or n.op != "new" or not n.label.startswith("list") or \
            len(n.kids) != 1 or n.kids[0].label != "app" or \
            not n.kids[0].kids[2].kids:
        return None
    v = n.kids[0].kids[0]
    for i in at[:-1][::-1]:
        if v.op != "tuple" or not -len(v.kids) <= i < len(v.kids):
            return None
        v = v.kids[i]
    return v


ARITH = ("Add", "Sub", "Mult", "Div", "Pow")


def ratio(n, memo):
    """rational function of the parts that are not arithmetic"""
    if n.id in memo:
        return memo[n.id]
    f = None
    if n.op == "const":
        t, v = n.label.split(":", 1)
        if t in ("int", "float"):
            try:
                f = RF.const(Fraction(v))
            except (ValueError, ZeroDivisionError):
                pass
        elif t == "complex":
            z = complex(v)
            f = RF.const(Fraction(repr(z.real))) + \
                RF.const(Fraction(repr(z.imag))) * RF.atom("I")
    elif n.op == "ent" and n.label in ("Ext:numpy.pi", "Ext:math.pi"):
        f = RF.atom("pi")
    elif n.op == "un" and n.label == "USub":
        f = -ratio(n.kids[0], memo)
    elif n.op == "bin" and n.label in ARITH:
        a, b = n.kids
        if n.label == "Pow":
            e = number(b.label) if b.op == "const" else None
            if e is not None and e == int(e) and abs(e) <= 4:
                f = ratio(a, memo) ** int(e)
        else:
            a, b = ratio(a, memo), ratio(b, memo)
            if n.label == "Add":
                f = a + b
            elif n.label == "Sub":
                f = a - b
            elif n.label == "Mult":
                f = a * b
            elif b.num:
                f = a / b
    elif n.op == "call" and len(n.kids) == 2 and n.kids[0].op == "ent" and \
            n.kids[0].label.startswith("Ext:") and n.kids[1].op != "kw":
        k = tail(n.kids[0].label)
        if k in ("deg2rad", "radians"):
            f = ratio(n.kids[1], memo) * RF.atom("pi") / RF.const(180)
        elif k in ("rad2deg", "degrees"):
            f = ratio(n.kids[1], memo) * RF.const(180) / RF.atom("pi")
    if f is None:
        f = RF.atom("n%d" % n.id)
    if len(f.num) > 60 or len(f.den) > 60:
        raise TooBig()
    memo[n.id] = f
    return f


def numeric(n):
    """certainly not a concatenation"""
    if n.op == "un":
        return True
    return n.op == "bin" and (
        n.label in ("Sub", "Div", "Pow") or
        any(k.op == "const" and number(k.label) is not None and
            (n.label != "Mult" or k.label.startswith("float:"))
            for k in n.kids) or
        any(numeric(k) for k in n.kids))


def arith(r, c):
    """edits of an arithmetic expression; None: not decided here"""
    if not any(n.op == "un" and n.label == "USub" or
               n.op == "bin" and n.label in ARITH for n in (r, c)):
        return None
    try:
        m = {}
        f, g = ratio(r, m), ratio(c, m)
        same = f == g
    except (TooBig, ZeroDivisionError, OverflowError):
        return None
    if same:
        return [] if numeric(r) and numeric(c) else None
    fa, ga = f.atoms(), g.atoms()
    for x, y in ((r, c), (c, r)):
        # one more operation on the same thing, or on what is given
        if x.op not in ("bin", "un", "const") and numeric(y) and \
                set((f if y is r else g).atoms()) <= {
                    "n%d" % x.id, "pi", "I"} and not count(x) and \
                x.op not in ("elem", "idx", "loop", "nth", "self", "unk"):
            return [Edit("value", r, c, True)]
        if x.op == "const" and number(x.label) is not None and numeric(y):
            at = (f if y is r else g).atoms() - {"pi", "I"}
            ns = {"n%d" % n.id: n for n in nodes(y)}
            if at and all(a in ns and path(ns[a]) for a in at):
                return [Edit("constant", r, c, True)]
    if not fa - {"pi", "I"} or not ga - {"pi", "I"} or \
            not (fa <= ga or ga <= fa) or not numeric(r):
        return None
    odd = fa ^ ga
    names = {"n%d" % n.id: n for n in nodes(r) + nodes(c)}
    if any(a in names and count(names[a]) for a in odd):
        return None
    return [Edit("value", r, c, True)]


def nodes(n):
    out, todo, seen = [], [n], set()
    while todo:
        x = todo.pop()
        if x.id not in seen:
            seen.add(x.id)
            out.append(x)
            todo.extend(x.kids)
    return out


def table_diff(r, c):
    if r.label != c.label:
        return [Edit("table", r, c, False)]
    if r.label == "dict":
        a = {k.kids[0]: k.kids[1] for k in r.kids}
        b = {k.kids[0]: k.kids[1] for k in c.kids}
        out = []
        for k in a:
            if k not in b:
                out.append(Edit("entry left out", N("row", "", (k, a[k])),
                                None, True))
            elif a[k] is not b[k]:
                out.append(Edit("entry", N("row", "", (k, a[k])),
                                N("row", "", (k, b[k])), True))
        return out
    if r.label == "set":
        return [Edit("entry left out", k, None, True) for k in r.kids
                if k not in c.kids]
    if r.label == "seq" and all(k in c.kids for k in r.kids) and \
            len(c.kids) > len(r.kids):
        return []
    return [Edit("table", r, c, True)]


# -- conditions -------------------------------------------------------------

FALSE = ("None", "False", "0", "''", "0.0", "()", "b''")


def split_atom(a):
    """(subject, test): test(sample) is True, False or None (either)"""
    def val(n):
        return n.label if n.op == "const" else None
    if a.op == "cmp" and a.label in ("Eq", "Is", "Lt"):
        x, y = a.kids
        if val(x) is not None and val(y) is None:
            c, subj, left = val(x), y, True
        elif val(y) is not None and val(x) is None:
            c, subj, left = val(y), x, False
        else:
            return a, ("truth", None)
        return subj, (a.label, c, left)
    if a.op == "cmp" and a.label == "In" and a.kids[0].op != "const":
        return a.kids[0], ("In", a.kids[1])
    if a.op == "call" and a.kids[0].op == "ent" and \
            a.kids[0].label == "Ext:builtins.isinstance" and len(a.kids) == 3:
        return a.kids[1], ("isinstance", a.kids[2])
    if a.op == "call" and a.kids[0].op == "attr" and \
            a.kids[0].label in ("startswith", "endswith") and \
            len(a.kids) == 2 and a.kids[1].op == "const":
        return a.kids[0].kids[0], (a.kids[0].label, a.kids[1].label)
    return a, ("truth", None)


def number(c):
    t, v = c.split(":", 1)
    if t in ("int", "float"):
        try:
            return float(v)
        except ValueError:
            return None
    return None


def holds(test, s):
    """test on a sample: ('const', label), ('num', x), ('other',)"""
    k = test[0]
    if k == "truth":
        if s[0] == "const":
            return s[1].split(":", 1)[1] not in FALSE
        if s[0] == "num":
            return s[1] != 0
        return None
    if k in ("Eq", "Is"):
        if s[0] == "const":
            return s[1] == test[1]
        if s[0] == "num":
            return number(test[1]) == s[1]
        return False
    if k == "Lt":
        c = number(test[1])
        if s[0] != "num" or c is None:
            return None
        return c < s[1] if test[2] else s[1] < c
    if k == "In":
        n = test[1]
        items = None
        if n.op == "tuple":
            items = n.kids
        elif n.op == "new" and n.kids and not n.label.startswith("dict") \
                and all(e.label == "app" and not e.kids[-1].kids and
                        not e.kids[-2].kids for e in n.kids):
            items = [e.kids[0] for e in n.kids]
        if items is not None and all(i.op == "const" for i in items):
            if s[0] == "const":
                return any(i.label == s[1] for i in items)
            if s[0] == "num":
                return any(number(i.label) == s[1] for i in items)
            return False
        return None
    if k == "isinstance":
        if s == ("const", "NoneType:None"):
            return False
        return None
    return None


def equal(m):
    """equalities that hold and do not hold together"""
    up = {}

    def root(x):
        while x in up:
            x = up[x]
        return x
    eq = [a for a in m if a.op == "cmp" and a.label == "Eq"]
    for a in eq:
        if m[a]:
            x, y = root(a.kids[0]), root(a.kids[1])
            if x is not y:
                up[x] = y
    return all(m[a] or root(a.kids[0]) is not root(a.kids[1]) for a in eq)


def consistent(m, groups):
    if not equal(m):
        return False
    for subj, tests in groups.items():
        consts, nums = set(), set()
        for a, t in tests:
            if t[0] in ("Eq", "Is", "Lt"):
                x = number(t[1])
                if x is None:
                    consts.add(t[1])
                else:
                    nums.add(x)
            if t[0] == "In":
                n = t[1]
                its = n.kids if n.op == "tuple" else (
                    [e.kids[0] for e in n.kids if e.kids]
                    if n.op == "new" else ())
                for i in its:
                    if i.op == "const":
                        x = number(i.label)
                        if x is None:
                            consts.add(i.label)
                        else:
                            nums.add(x)
        ss = [("const", c) for c in consts] + [("other",)]
        if nums:
            o = sorted(nums)
            pts = o + [(x + y) / 2 for x, y in zip(o, o[1:])]
            pts += [o[0] - 1, o[-1] + 1]
            if subj.op == "call" and subj.kids[0].label == \
                    "Ext:builtins.len":
                pts = [p for p in pts if p >= 0 and p == int(p)]
                ss = []
            ss += [("num", p) for p in pts]
        ok = False
        for s in ss:
            if all(holds(t, s) in (None, m[a]) for a, t in tests):
                ok = True
                break
        if not ok:
            return False
        inst = [a for a, t in tests if t[0] == "isinstance" and m[a]]
        if len(inst) > 1:
            return False
        for kind in ("startswith", "endswith"):
            if len([a for a, t in tests if t[0] == kind and m[a]]) > 1:
                return False
    return True


def gsem(r, c, never=None, eff=None):
    """do two conditions differ?  True: on some assignment to their atoms
    that can come up; False: on none; None: not decided"""
    try:
        f, g = gcubes(r), gcubes(c)
    except TooBig:
        return None
    fa = {a for q in f for a, p in q}
    ga = {a for q in g for a, p in q}
    if len(fa | ga) > 10:
        return False if f == g else None
    all_a, all_b = fa, ga
    if ga - fa:
        # tests that are new, of something else than what was tested
        if f == g:
            return False
        subj = {split_atom(a)[0] for a in fa}
        v = counted(f, g, fa | ga)
        if v is not None:
            return v
        same = {k for a in fa if a.op == "cmp" and a.label == "Eq"
                for k in a.kids if k.op != "const"}
        new = [a for a in ga - fa if not (
            a.op == "cmp" and a.label == "Eq" and
            all(k in same for k in a.kids))]
        if fa - ga and new or any(not fresh(a, subj, eff) for a in new):
            return None
        fa = fa | ga
    nv = [q for q in (never or ()) if all(a in fa for a, p in q)]
    some = [q for q in (never or ()) if any(a in fa for a, p in q) and
            not all(a in fa for a, p in q)]
    atoms = sorted(fa)
    groups = {}
    for a in atoms:
        s, t = split_atom(a)
        groups.setdefault(s, []).append((a, t))
    for bits in range(1 << len(atoms)):
        m = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
        u = any(all(m[a] == p for a, p in q) for q in f)
        v = any(all(m[a] == p for a, p in q) for q in g)
        if u == v or not consistent(m, groups):
            continue
        if any(all(m[a] == p for a, p in q) for q in nv):
            continue
        # an exception may come first
        if any(all(m.get(a, p) == p for a, p in q) for q in some):
            return None
        # a test of what is there may say the same of its attributes
        odd = all_a ^ all_b
        if odd and all(implied(a, all_a & all_b) for a in odd):
            return None
        return True
    return False


def implied(a, others):
    """a tests an attribute of something that a function of ours, called
    in one of the others, is given too"""
    s = split_atom(a)[0]
    if s.op != "attr":
        return False
    own = s.kids[0]
    return any(n.op == "call" and
               any(k is own or k.op == "kw" and own in k.kids
                   for k in n.kids[1:]) and n.kids[0].op == "ent" and
               not n.kids[0].label.startswith("Ext:")
               for b in others for n in nodes(b))


def count(n):
    """a number of things: 0, 1, 2, ..."""
    if n.op == "call" and n.kids[0].label == "Ext:builtins.len":
        return True
    if n.op == "attr" and n.label in ("ndim", "size"):
        return True
    return n.op == "sub" and n.kids[0].op == "attr" and \
        n.kids[0].label == "shape"


def counted(f, g, all_atoms):
    """do conditions that differ in how a number of things is tested
    differ?  None: not decided"""
    by = {}
    for a in all_atoms:
        s, t = split_atom(a)
        if count(a):
            s, t = a, ("truth", None)
        by.setdefault(s, []).append((a, t))
    fa, ga = ({a for q in h for a, p in q} for h in (f, g))
    if len(fa - ga) != 1 or len(ga - fa) != 1:
        return None
    odd = fa ^ ga
    subj = {split_atom(a)[0] for a in odd}
    if len(subj) != 1:
        return None
    s = subj.pop()
    ts = by[s]
    if not count(s) or not all(
            t[0] == "truth" or t[0] in ("Eq", "Lt") and
            number(t[1]) is not None for a, t in ts):
        return None
    top = max([int(number(t[1])) for a, t in ts if t[0] != "truth"] + [1])
    if top > 50:
        return None
    groups = {k: v for k, v in by.items() if k is not s}
    rest = sorted(a for v in groups.values() for a, t in v)
    for n in range(top + 2):
        fix = {a: holds(t, ("num", n)) for a, t in ts}
        for bits in range(1 << len(rest)):
            m = {a: bool(bits >> i & 1) for i, a in enumerate(rest)}
            m.update(fix)
            u = any(all(m[a] == p for a, p in q) for q in f)
            v = any(all(m[a] == p for a, p in q) for q in g)
            if u != v and consistent(m, groups):
                return True
    return False


def related(a, where):
    """does what is tested for being empty come up there?"""
    s = split_atom(a)[0]
    while s.op == "not":
        s = s.kids[0]
    if s.op == "call" and s.kids[0].label == "Ext:builtins.len":
        s = s.kids[1]
    if s.op in ("new", "unk", "exc", "self", "const"):
        return True
    return any(s is x or contains(x, s) for x in where)


def fresh(a, subj=(), eff=None):
    """a test that cannot follow from the ones there are"""
    if a.op in ("unk", "exc", "const", "self", "raised", "handler"):
        return False
    if emptiness(a) and (eff is None or related(a, eff + list(subj))):
        return False
    return split_atom(a)[0] not in subj


def harmless(call, arg):
    """keyword that restates what happens anyway"""
    return arg.op == "kw" and arg.kids[0].op != "param" and arg.label in (
        "dtype", "copy", "subok", "order", "stacklevel", "flags", "verbose")


def seqlike(n):
    return any(k.op in ("tuple", "new") or k.op == "const" and
               k.label.startswith("str") for k in n.kids)


def entries(r, c, memo):
    """contents of a list/dict made here"""
    a = [x for x in r.kids if x not in c.kids]
    b = [x for x in c.kids if x not in r.kids]
    if not a and not b:
        return [Edit("order of contents", r, c, r.label.startswith("list"))]
    if a and not b:
        return [Edit("content left out", r, c, True)]
    if b and not a:
        return [Edit("content added", r, c, False)]
    if len(a) == len(b):
        out = {}
        for x in a:
            y, es = min(((y, diff(x, y, memo)) for y in b),
                        key=lambda t: (sum(not e.sure for e in t[1]),
                                       len(t[1])))
            b.remove(y)
            for e in es:
                out[e.key] = e
        return list(out.values())
    return [Edit("contents", r, c, False)]


def name_sure(a, b):
    a, b = tail(a), tail(b)
    if any({a, b} <= s for s in SAME):
        return False
    # a property and the field behind it
    return a.lstrip("_") != b.lstrip("_")


def ent_edit(r, c):
    rk, rn = r.label.split(":", 1)
    ck, cn = c.label.split(":", 1)
    if rk == ck == "Ext":
        a, b = tail(rn), tail(cn)
        return Edit("function", r, c, any({a, b} <= s for s in OPPOSITE))
    if rk == ck and rk in ("FuncInfo", "ClassInfo", "ModVar"):
        sure = True
        if rk == "FuncInfo" and EXISTING is not None:
            # renamed, or another function of the same purpose
            sure = rn in EXISTING and cn in SPECIFIED
        return Edit("name", r, c, sure)
    return Edit("name", r, c, False)


def emptiness(n):
    """a test whether something is empty or None"""
    if n.op == "not":
        n = n.kids[0]
    if n.op in ("param", "attr", "elem", "new", "sub"):
        return True
    if n.op == "cmp" and n.label == "Lt":
        # x < 0 is none
        return zero(n.kids[0]) or zero(n.kids[1]) and any(
            count(x) for x in nodes(n.kids[0]))
    if n.op == "cmp":
        return any(zero(k) for k in n.kids)
    if n.op == "call" and n.kids[0].label == "Ext:builtins.len":
        return True
    return False


def gdiff(r, c, memo):
    if r.op == "anyof" or c.op == "anyof":
        ra = list(r.kids) if r.op == "anyof" else [r]
        ca = list(c.kids) if c.op == "anyof" else [c]
        a = [x for x in ra if x not in ca]
        b = [x for x in ca if x not in ra]
        if len(a) == 1 and len(b) == 1:
            return gdiff(a[0], b[0], memo)
        if len(a) == len(b) <= 4:
            return matched(a, b, lambda x, y: gdiff(x, y, memo))
        if a and not b or b and not a:
            return [Edit("condition", r, c, False)]
        return [Edit("condition", r, c, False)]
    a = [x for x in r.kids if x not in c.kids]
    b = [x for x in c.kids if x not in r.kids]
    if len(a) == 1 and len(b) == 1:
        x, y = a[0], b[0]
        if x.kids[0] is y.kids[0]:
            return [Edit("condition negated", r, c, True)]
        if x.label == y.label:
            return diff(x.kids[0], y.kids[0], memo)
        u, w = x.kids[0], y.kids[0]
        for k, l in ((u, w), (w, u)):
            if k.op == "cmp" and k.label == "Is" and l in k.kids and \
                    l.op == "param" and N("const", "NoneType:None") in k.kids:
                return [Edit("None/empty", r, c, True)]
        if u.op == w.op == "cmp" and u.kids == w.kids[::-1]:
            return [Edit("operator", x, y, True)]
        if bounded(u, w):
            return [Edit("comparison", x, y, True)]
        return [Edit("condition", x, y, False)]
    if a and not b:
        # the other arm of an exclusive test may be left out
        sure = any(x.label == "True" for x in a) or not any(
            exclusive(x, y) for x in a for y in c.kids)
        return [Edit("condition dropped", N("guards", "", a), N("guards"),
                     sure)]
    if b and not a:
        return [Edit("condition added", N("guards"), N("guards", "", b),
                     not any(emptiness(x.kids[0]) and (
                         "eff" not in memo or
                         related(x.kids[0], memo["eff"] + list(r.kids)))
                         for x in b))]
    if len(a) == len(b):
        return matched(a, b, lambda x, y: diff(
            x.kids[0], y.kids[0], memo) if x.label == y.label else
            [Edit("condition", x, y, False)])
    return [Edit("condition", r, c, False)]


def bounded(u, w):
    """equality of two sizes against one being the smaller"""
    if not (u.op == w.op == "cmp" and {u.label, w.label} in (
            {"Eq", "Lt"}, {"Eq", "LtE"})):
        return False
    ks = [offset(k) for n in (u, w) for k in n.kids]
    return {ks[0], ks[1]} == {ks[2], ks[3]} and not any(
        k.op in ("const", "loop", "idx", "nth", "self", "unk") for k in ks)


def renamed(r, c, a, b):
    """the same but for the attribute a instead of b"""
    todo = [(r, c)]
    while todo:
        x, y = todo.pop()
        if x is y:
            continue
        if x.op != y.op or len(x.kids) != len(y.kids) or \
                x.label != y.label and not (
                    x.op == "attr" and (x.label, y.label) == (a, b)):
            return False
        todo.extend(zip(x.kids, y.kids))
    return True


def offset(n):
    """n without a constant added to it"""
    if n.op == "bin" and n.label in ("Add", "Sub"):
        ks = [k for k in n.kids if k.op != "const"]
        if len(ks) == 1 and (n.label == "Add" or ks[0] is n.kids[0]):
            return ks[0]
    return n


def classes(n):
    return {k.label.split(":", 1)[1] for k in
            (n.kids if n.op == "tuple" else (n,)) if k.op == "ent"}


def covered(name, names):
    """instances of name are instances of one of names"""
    if name in names or CLASSES is None:
        return True
    if name in CLASSES:
        return bool(CLASSES[name][0] & names)
    return name not in ("builtins.list", "builtins.tuple", "builtins.dict",
                        "builtins.str", "builtins.float", "builtins.complex",
                        "builtins.set", "builtins.slice")


def kinds(r, c):
    """tests of the class of the same thing, one accepting more"""
    def test(n, name):
        return n.op == name and len(n.kids) == 2 or \
            n.op == "call" and n.kids[0].op == "ent" and \
            len(n.kids) == 3 and tail(n.kids[0].label) == name
    if test(r, "isinstance") and test(c, "isinstance") and \
            r.kids[-2] is c.kids[-2]:
        a, b = (classes(n.kids[-1]) for n in (r, c))
        n = [len(k.kids[-1].kids) if k.kids[-1].op == "tuple" else 1
             for k in (r, c)]
        if n != [len(a), len(b)]:
            return False
        return (a < b or b < a) and any(not covered(x, b) for x in a - b) or \
            (a < b or b < a) and any(not covered(x, a) for x in b - a)
    for x, y in ((r, c), (c, r)):
        if test(x, "isinstance") and test(y, "hasattr") and \
                x.kids[-2] is y.kids[-2] and CLASSES is not None:
            at = y.kids[-1].label.split(":", 1)[-1].strip("'")
            b = classes(x.kids[-1])
            return bool(b) and b <= set(CLASSES) and any(
                at in m for o, m in CLASSES.values()) and any(
                not covered(o, b) for o, (_, m) in CLASSES.items()
                if at in m)
    return False


def split_test(d, r, c):
    """the class is tested for in another place"""
    for x, y, es in ((d.r, d.c, c), (d.c, d.r, r)):
        if tail(y.op if y.op != "call" else y.kids[0].label) != "isinstance":
            return False
        new = classes(x.kids[-1]) - classes(y.kids[-1])
        for n in parts(es):
            if n is not y and n.op == y.op and len(n.kids) == len(y.kids) \
                    and n.kids[-2] is y.kids[-2] and \
                    new & classes(n.kids[-1]):
                return True
    return False


REDUCE = ("max", "min", "any", "all", "sum", "result_type", "set",
          "promote_types", "join", "union", "concatenate", "vstack", "hstack")


def one_of(r, c):
    """r works on every element of a list, c is what it is for one of them"""
    if r.op != "call" or tail(r.kids[0].label) not in REDUCE:
        return False
    for k in r.kids[1:]:
        k = k.kids[0] if k.op in ("star", "kw") else k
        if k.op == "new" and len(k.kids) == 1 and k.kids[0].label == "app" \
                and len(k.kids[0].kids[2].kids) == 1 and \
                not k.kids[0].kids[1].kids:
            v, src = k.kids[0].kids[0], k.kids[0].kids[2].kids[0]
            for i in (0, -1):
                x = N("sub", "", (src, N("const", "int:%d" % i)))
                if renorm(v, {N("elem", "", (src,)): renorm(x, {}, {})},
                          {}) is \
                        renorm(c, {}, {}):
                    return True
    return False


def only_last(r, c):
    """r collects over a loop what c keeps of the last turn only"""
    if c.op != "loop" or r.op != "new" or len(r.kids) != 1 or \
            r.kids[0].label not in ("ext", "app", "set"):
        return False
    e = r.kids[0]
    return len(c.kids) == 3 and e.kids[-1].kids == (c.kids[1],) and \
        c.kids[2] in e.kids


def prefix(n):
    """what a prefix is taken off of"""
    if n.op != "phi":
        return None
    for x, y in (n.kids[1:], n.kids[:0:-1]):
        if x.op == "sub" and x.kids[0] is y and slicing(x.kids[1]) and \
                n.kids[0].op == "call" and n.kids[0].kids[0].op == "attr" and \
                n.kids[0].kids[0].label == "startswith":
            return y
    return None


def stripped(r, c):
    x = prefix(r)
    while c.op == "sub" and c.kids[1].op == "const":
        c = c.kids[0]
    return x is not None and c.op == "call" and c.kids[0].op == "attr" and \
        c.kids[0].label in ("split", "strip", "lstrip", "replace",
                            "rsplit", "partition", "rpartition") and \
        c.kids[0].kids[0] is x


def contents(n):
    """the entries of a list, set or generator"""
    if n.op == "new" and n.label.split(":")[0] in ("list", "set", "gen"):
        return n.kids
    return None


def matched(a, b, f):
    """edits of the best pairing found of a with b"""
    todo = []
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            es = f(x, y)
            todo.append((sum(not e.sure for e in es), len(es),
                         sum(e.r.size if e.r else 1 for e in es), i, j, es))
    todo.sort(key=lambda t: t[:5])
    ua, ub, out = set(), set(), {}
    for _, _, _, i, j, es in todo:
        if i in ua or j in ub:
            continue
        ua.add(i)
        ub.add(j)
        for e in es:
            out[e.key] = e
    return list(out.values())


def exclusive(neg, pos):
    """not neg follows from pos: tests of the same thing"""
    def subj(n):
        s = set()
        todo = [n]
        while todo:
            x = todo.pop()
            if x.op in ("param", "elem", "attr"):
                s.add(x)
            todo.extend(x.kids)
        return s
    return pos.label == "True" and bool(subj(neg.kids[0]) &
                                        subj(pos.kids[0]))


def raises(es):
    """conditions under which an exception is raised"""
    out = set()
    for e in es:
        if e.op == "effect" and e.kids[0].op == "raise":
            try:
                out |= gcubes(e.kids[1])
            except TooBig:
                pass
    # at the end, nothing else having happened
    out.discard(frozenset())
    return out


MAXEDITS = 3


def arithmetic(d):
    """an edit another one of its kind can make good"""
    if d.kind in ("minus left out", "minus added", "operator", "value"):
        return True
    if d.kind == "operands swapped":
        return d.r.op in ("bin", "cmp")
    return d.kind == "constant" and d.r.label.split(":")[0] in (
        "int", "float", "complex")


MUTATORS = ("append", "extend", "insert", "remove", "sort", "reverse",
            "update", "clear", "pop", "popitem", "setdefault")


def rooted(n):
    """something the caller can see"""
    while n.op in ("attr", "sub", "elem"):
        n = n.kids[0]
    if n.op == "phi":
        return rooted(n.kids[1]) or rooted(n.kids[2])
    return n.op == "param" or n.op == "ent" and \
        n.label.startswith("ModVar:")


def added(x):
    """an effect that shows, next to those specified"""
    n = x.kids[0]
    if n.op in ("setattr", "delattr"):
        # keeping a value for later changes nothing
        return rooted(n.kids[0]) and (not n.label.startswith("_") or
                                      n.label in FIELDS)
    if n.op in ("setitem", "delitem"):
        return rooted(n.kids[0])
    if n.op == "do" and n.kids[0].op == "call":
        f = n.kids[0].kids[0]
        if f.op == "ent" and f.label.startswith("FuncInfo:") and \
                tail(f.label) in MUTATORS + ("__setitem__", "__delitem__"):
            a = [k.kids[0] for k in n.kids[0].kids
                 if k.op == "kw" and k.label == "self"]
            a += [k for k in n.kids[0].kids[1:] if k.op != "kw"]
            return bool(a) and rooted(a[0])
        return f.op == "attr" and f.label in MUTATORS and rooted(f.kids[0])
    return False


def atoms(g, out):
    if g.op == "guard":
        for q in cubes_of(g.kids[0]):
            out.update(a for a, p in q)
        return out
    for k in g.kids:
        atoms(k, out)
    return out


def special(r, extra):
    """effects under a test nothing specified makes"""
    old = set()
    try:
        for x in r:
            if x.op == "effect":
                atoms(x.kids[1], old)
        subj = {split_atom(a)[0] for a in old}
        for x in extra:
            new = [a for a in atoms(x.kids[1], set()) if a not in old]
            if not new or not all(fresh(a, subj, [x.kids[0], x.kids[2]])
                                  for a in new):
                return False
    except TooBig:
        return False
    return True


def kept(x, y):
    """storing against storing only what is not there yet"""
    p, q = x.kids[0], y.kids[0]
    for a, b in ((p, q), (q, p)):
        if a.op == "delitem" and b.op == "do" and b.kids[0].op == "call" and \
                b.kids[0].kids[0].op == "attr" and \
                b.kids[0].kids[0].label == "clear" and \
                b.kids[0].kids[0].kids[0] is a.kids[0]:
            return Edit("all for one", p, q, True)
    if q.op == "setitem":
        p, q = q, p
    if p.op != "setitem" or q.op != "do" or x.kids[1:] != y.kids[1:]:
        return None
    f = q.kids[0]
    if f.op == "call" and f.kids[0].op == "attr" and \
            f.kids[0].label == "setdefault" and \
            (f.kids[0].kids[0],) + f.kids[1:] == p.kids:
        return Edit("setdefault", x.kids[0], y.kids[0], True)
    return None


def aspects(n):
    """{(base, "size" or "content")} a small expression depends on, None if
    it depends on anything else"""
    if n.op == "const":
        return set()
    if n.op in ("bin", "un") or slicing(n):
        out = set()
        for k in n.kids:
            a = aspects(k) if k.op != "ent" else set()
            if a is None:
                return None
            out |= a
        return out
    if n.op == "call" and len(n.kids) == 2 and n.kids[0].op == "ent" and \
            tail(n.kids[0].label) == "len":
        return {(n.kids[1].id, "size")}
    if n.op == "attr" and n.label in ("ndim", "size"):
        return {(n.kids[0].id, "size")}
    if n.op == "sub" and n.kids[1].op == "const":
        k = n.kids[0]
        if k.op == "attr" and k.label == "shape":
            return {(k.kids[0].id, "size")}
        return {(k.id, "content")}
    return None


def renorm(n, sub, memo):
    """n with parts replaced, in normal form again"""
    if n in sub:
        return sub[n]
    if n.id in memo:
        return memo[n.id]
    ks = [renorm(k, sub, memo) for k in n.kids]
    if n.op != "phi" and all(x is y for x, y in zip(ks, n.kids)):
        r = n
    else:
        if n.op in ("guards", "anyof", "and", "or"):
            ks = sorted(set(ks))
        elif n.op == "cmp" and n.label in ("Eq", "Is"):
            ks = sorted(ks)
        r = N(n.op, n.label, ks)
        if r.op == "phi":
            r = ordered(r) or r
    memo[n.id] = r
    return r


def parts(es):
    out, todo = set(), list(es)
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo.extend(n.kids)
    return out


def tree_of(n):
    """(tests, leaves) of nested alternatives"""
    ts, ls, todo = set(), set(), [n]
    while todo:
        x = todo.pop()
        if x.op == "phi":
            ts.add(x.kids[0])
            todo.extend(x.kids[1:])
        else:
            ls.add(x)
        if len(ts) > 12:
            return set(), set()
    return ts, ls


def further(x, y):
    """the same alternatives, chosen by one test more"""
    if x.op != "phi" or y.op != "phi":
        return False
    (t, a), (u, b) = tree_of(x), tree_of(y)
    if len(a) not in (2, 3) or a != b or not t < u or len(u - t) > 1 or \
            any(z.op == "loop" for z in parts(u)):
        return False
    subj = {split_atom(z)[0] for z in t}
    return all(fresh(z, subj) and z.op not in ("and", "or", "phi")
               for z in u - t)


def other_way(x, y, memo):
    """y does the same as x, or something definitely else in some case; or
    parts of x"""
    if y.op == "phi" and x.op == "call" and x in y.kids[1:]:
        alt = y.kids[1] if x is y.kids[2] else y.kids[2]
        if alt.op == "call" and alt.kids[0].op == x.kids[0].op == "attr":
            e = diff(x, alt, memo)
            return bool(e) and all(d.sure for d in e)
        return False
    return x.op == "new" and y.op == "call" and \
        diff(x, y, memo)[0].kind == "split"


def replaced(r, c, memo):
    """edits of parts that, made everywhere, turn the effects r into c"""
    found = {}
    m = {}
    r, c = {renorm(x, {}, m) for x in r}, {renorm(x, {}, m) for x in c}
    if r == c:
        return None
    for turn in range(3):
        a = [x for x in r if x not in c]
        b = [x for x in c if x not in r]
        if not a and not b:
            return list(found.values())
        if not a or not b:
            return None
        rp, cp = parts(r), parts(c)
        old = [x for x in parts(a) if x not in cp and x.size <= 400 and
               x.op in ("call", "cmp", "sub", "bin", "attr", "new", "phi")]
        new = [x for x in parts(b) if x not in rp and x.size <= 400 and
               x.op in ("call", "cmp", "sub", "bin", "attr", "phi")]
        old += {k for y in new if y.op == "phi" for k in y.kids[1:]
                if k.op == "phi" and k in rp and k in cp}
        if len(old) * len(new) > 4000:
            return None
        cand = []
        for x in old:
            for y in new:
                if x.op == y.op and (x.op != "call" or
                                     x.kids[0] is y.kids[0]) or \
                        other_way(x, y, memo):
                    e = diff(x, y, memo)
                    if e and all(d.sure and (not d.kind.startswith(
                            ("alternative", "condition")) or
                            other_way(d.r, d.c, memo)) for d in e) and \
                            len(e) <= 2:
                        cand.append((x.size + y.size, key_of(x), key_of(y),
                                     x, y, e))
        cand.sort(key=lambda t: t[:3])
        best = None
        for _, _, _, x, y, e in cand[:12]:
            m = {}
            q = {renorm(z, {x: y}, m) for z in r}
            k = len(q - c) + len(c - q)
            if best is None or k < best[0]:
                best = k, q, e
        if best is None or best[0] >= len(a) + len(b) and turn == 2:
            return None
        r = best[1]
        for d in best[2]:
            found[d.key] = d
    if r == c:
        return list(found.values())
    return None


def calls(es, name):
    return [x for x in parts(es) if x.op == "call" and x.kids[0].op == "ent"
            and x.kids[0].label.endswith(":" + name)]


def recursion(r, c, name):
    """r calls itself, c does nothing in its place"""
    x = calls(r, name)
    if not x or calls(c, name):
        return None
    for n in parts(c):
        if n.op in ("loop", "unk", "fn") or n.op == "in" and n.kids or \
                n.op == "ent" and n.label.startswith("FuncInfo:") and \
                n.label.split(":", 1)[1] not in SPECIFIED:
            return None
    return [Edit("call of itself left out", x[0], None, True)]


def compare(spec, cur, name=None):
    v, es, w = compare1(spec, cur)
    if v == "unknown" and name is not None:
        e = recursion(spec[0], cur[0], name)
        if e:
            return "differs", e, w
    if v == "unknown":
        try:
            e = replaced(set(spec[0]), set(cur[0]), {
                "not": raises(spec[0]) | raises(cur[0])})
        except TooBig:
            e = None
        if e and len(e) <= MAXEDITS and not (
                len(e) > 1 and all(arithmetic(d) for d in e)
                and len({(d.kind, d.r.label, d.c.label) for d in e}) > 1):
            return "differs", e, w
    return v, es, w


def unit_loop(n):
    """a loop made to run once, or one that is not understood"""
    if n.op in ("tuple", "const", "loop", "unk") or n.op == "new":
        return True
    return n.op == "call" and n.kids[0].label in (
        "Ext:builtins.range", "Ext:itertools.count",
        "Ext:itertools.repeat")


def consumed(g):
    """a condition on something taken off a stream"""
    return any(n.op == "call" and (
        n.kids[0].op == "attr" and n.kids[0].label in ("pop", "popleft",
                                                       "readline") or
        n.kids[0].op == "ent" and tail(n.kids[0].label) == "next")
        for n in parts([g]))


def first_only(x, y):
    """x does to each element of something what y does to one of them"""
    p, q = x.kids[2].kids, y.kids[2].kids
    if len(p) != len(q) + 1 or p[:-1] != q or unit_loop(p[-1]) or \
            x.kids[0].op not in ("setitem", "setattr", "do"):
        return False
    el = N("elem", "", (p[-1],))
    for i in (0, -1):
        one = N("sub", "", (p[-1], N("const", "int:%d" % i)))
        if renorm(x.kids[0], {el: renorm(one, {}, {})}, {}) is \
                renorm(y.kids[0], {}, {}):
            return True
    return False


def computed(n):
    """a return of a number worked out"""
    if n.op != "ret":
        return False
    n = n.kids[0]
    return any(k.op in ("bin", "un") for k in
               (n.kids if n.op == "tuple" else (n,)))


def compare1(spec, cur):
    """(verdict, edits, effects): 'same', 'differs', 'unknown'"""
    r, ry = spec
    c, cy = cur
    rs, cs = set(r), set(c)
    a = [x for x in r if x not in cs]
    b = [x for x in c if x not in rs]
    if not a and not b:
        for k in {x.kids[1:] for x in ry}:
            u = [x for x in ry if x.kids[1:] == k]
            w = [x for x in cy if x.kids[1:] == k]
            if u != w and len(u) == len(w):
                return "differs", [Edit("order of yields", u[0], w[0],
                                        True)], [w[0]]
        return "same", [], []
    memo = {"not": raises(r) | raises(c)}
    if len(a) == len(b) == 1 and (a[0].op != "effect" or
                                  b[0].op != "effect"):
        es = diff(a[0], b[0], memo)
        if not es:
            return "same", [], []
        return ("differs" if all(e.sure for e in es) else "unknown"), es, b
    rmemo = {}
    edits, where = {}, []
    b = [x for x in b if not x.kids or x.kids[0].op != "default"]
    if not b:
        if len(a) <= 3 and (len(a) < len(r) or len(r) == 1):
            return "differs", [Edit("effect missing", x, None, True)
                               for x in a], a
        return "unknown", [], []
    if not a:
        es = [Edit("effect added", None, x, True) for x in b]
        if len(b) <= 2 and all(added(x) for x in b):
            return "differs", es, b
        return "unknown", [], []
    # pair what is left, closest first
    pairs = []
    for x in a:
        for y in b:
            if x.kids[0].op != y.kids[0].op:
                e = kept(x, y)
                if e is not None:
                    pairs.append((0, 1, 1, key_of(x), key_of(y), x, y, [e]))
                continue
            seen = {}
            m = rmemo if x.kids[0].op == "raise" else memo
            for i, (p, q) in enumerate(zip(x.kids, y.kids)):
                if i == 1 and p is not q:
                    m = dict({k: m[k] for k in ("not",) if k in m},
                             eff=[x.kids[0], x.kids[2]])
                for d in diff(p, q, m):
                    seen[d.key] = d
            e = list(seen.values())
            if x.kids[:2] == y.kids[:2] and x.kids[0].op in (
                    "do", "setattr", "setitem", "yield"):
                p, q = x.kids[2].kids, y.kids[2].kids
                if len(p) != len(q) and (q[:len(p)] == p or
                                         p[:len(q)] == q) and not any(
                        unit_loop(z) for z in (p + q)[min(len(p), len(q)):]):
                    e = [Edit("per element", x.kids[2], y.kids[2], True)]
            if x.kids[:2] == y.kids[:2] and x.kids[0].op == "raise" and \
                    x.kids[2] is not y.kids[2] and consumed(x.kids[1]):
                p, q = x.kids[2].kids, y.kids[2].kids
                if len(p) == len(q) + 1 and p[:len(q)] == q and \
                        not unit_loop(p[-1]):
                    e = [Edit("per element", x.kids[2], y.kids[2], True)]
            if any(not d.sure for d in e) and x.kids[1] is y.kids[1] and \
                    (first_only(x, y) or first_only(y, x)):
                e = [Edit("one for each", x.kids[0], y.kids[0], True)]
            bad = sum(1 for d in e if not d.sure)
            w = sum(min(d.r.size if d.r else 1, 500) for d in e)
            pairs.append((bad, len(e), w, key_of(x), key_of(y), x, y, e))
    pairs.sort(key=lambda t: t[:5])
    ua, ub = set(), set()
    for bad, n, w, _, _, x, y, e in pairs:
        if x in ua or y in ub:
            continue
        ua.add(x)
        ub.add(y)
        for d in e:
            edits[d.key] = d
        where.append(y)
    left = [x for x in a if x not in ua]
    if left:
        done = parts(b)
        left = [x for x in left if not (
            x.kids[0].op == "do" and x.kids[0].kids[0] in done)]
    extra = [y for y in b if y not in ub]
    es = list(edits.values())
    if not es and not extra and not left:
        return "same", [], []
    try:
        # a test that matters in one place matters
        new = set()
        for d in es:
            if d.sure and d.kind.startswith("condition"):
                new |= atoms(d.c, set()) - atoms(d.r, set())
        for d in es:
            if d.kind == "condition added" and new and \
                    atoms(d.c, set()) <= new:
                d.sure = True
    except TooBig:
        pass
    for d in es:
        if d.kind == "class" and split_test(d, r, c):
            d.sure = False
    if any(d.kind == "one for each" for d in es):
        es = [d for d in es if not (
            d.r is not None and d.c is not None and
            d.r.op == d.c.op == "in")]
    if len(es) > MAXEDITS or not all(d.sure for d in es) or \
            len(es) > 1 and all(arithmetic(d) for d in es) or \
            any(d.r is e.c and d.c is e.r for d in es for e in es) and \
            not (len(a) == len(b) == 1 and
                 all(d.kind == "parameter" for d in es)):
        return "unknown", es, where
    if extra:
        # an effect under a new condition; the others got its opposite
        if left or len(extra) > 3 or not (
                all(d.kind.startswith("condition") for d in es) and
                special(r, extra) or all(added(x) for x in extra)):
            return "unknown", es, where
        es += [Edit("special case", None, x, True) for x in extra]
        where = extra + where
    if left:
        if any(d.kind.endswith(" added") for d in es):
            # done another way
            return "unknown", es, where
        if all(computed(x.kids[0]) for x in left) and \
                any(computed(y.kids[0]) for y in where) and \
                all(d.kind.startswith("condition") for d in es):
            # one formula may cover the case of another
            return "unknown", es, where
        es += [Edit("effect missing", x, None, True) for x in left]
        if len(left) > 2:
            return "unknown", es, where
    return "differs", es, where
