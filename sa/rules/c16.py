"""SI prefixes, units and number formatting."""
import ast
from fractions import Fraction
try:
    from re import _parser as sre_parse
except ImportError:  # pragma: no cover
    import sre_parse

from ..algebra import RF
from ..engine import alternatives, cval, is_const, show
from ..lib import fname, kwarg, loc, run, short
from ..model import AnalysisBroken, FuncInfo, ModVar
from ..valnum import (Eval, Opaque, Raises, Unsupported, canon, equal, fn,
                      fnargs, power, rf, variants)
from .c03 import sub
from .c17 import guarded
from .c22 import entries

RULE = (
    "The prefix tables are resolved as constants from the source and compared "
    "with the SI prefixes and with each other (every key once, 10**exponent "
    "of the printing tables equal to the value the parsing table gives the "
    "same prefix, every third power from -24 to 24 present); the decision "
    "tree of unit_to_multiplier only splits a prefix off a known unit and "
    "returns the multiplier and remainder of the same split; the closed form "
    "of the scaled number times ten to the returned exponent is the number "
    "itself; every use of a multiplier scales the value that gets the "
    "matching unit; the number pattern accepts any number of exponent "
    "digits; format and axis labels pair a prefix with the exponent used for "
    "scaling.")
MIN = 20
U = "hftools.constants.si_units:"
A, C = RF.atom, RF.const
SI = {"y": -24, "z": -21, "a": -18, "f": -15, "p": -12, "n": -9, "u": -6,
      "\u03bc": -6, "\u00b5": -6, "m": -3, "c": -2, "d": -1, "": 0,
      "da": 1, "h": 2, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18,
      "Z": 21, "Y": 24}
UNITS = ["Hz", "s", "S", "Ohm", "m", "V", "A", "F", "W"]


def check(prog, rep, tier):
    rep.parts(*[(f, (prog, rep)) for f in (
        tables, units, splitting, scaling, uses, pattern, formatting,
        axis_labels)])


def mvar(prog, name):
    mod = prog.modules.get("hftools.constants.si_units")
    if mod is None:
        raise AnalysisBroken("si_units not found")
    b = prog.lookup(mod, name)
    return b if isinstance(b, ModVar) else None


def const_table(prog, mv):
    ent = entries(prog, mv) if mv is not None else None
    if ent is None:
        return None
    out = {}
    for k, node in ent.items():
        try:
            out[k] = Eval(prog).expr(node, {}, mv.module)
        except Unsupported:
            return None
    return out


def keys_of(mv):
    """constant keys of the dict literals assigned to the variable, with
    repetitions"""
    out = []
    for n in mv.nodes:
        if isinstance(n, ast.Dict):
            for k in n.keys:
                try:
                    out.append((ast.literal_eval(k), k))
                except Exception:
                    pass
    return out


def num_entries(prog, mv):
    """{int exponent: prefix} for tables with numeric (possibly negative)
    keys"""
    if mv is None:
        return None
    out = {}
    if len(mv.nodes) != 1 or not isinstance(mv.nodes[0], ast.Dict):
        return None
    for k, v in zip(mv.nodes[0].keys, mv.nodes[0].values):
        try:
            out[ast.literal_eval(k)] = ast.literal_eval(v)
        except Exception:
            return None
    return out


def tables(prog, rep):
    mv = mvar(prog, "siprefixes")
    t = const_table(prog, mv)
    parse = {}
    if t is None:
        rep.unsure("prefix-value", "siprefixes", "", "table not constant")
    else:
        for k, v in t.items():
            con = mv.fullname + "[%r]" % k
            if k not in SI:
                rep.unsure("prefix-value", con, mv.module.rel,
                           "not an SI prefix")
                continue
            ok = equal(rf(v), C(Fraction(10) ** SI[k]))
            parse[k] = ok
            rep.ob("prefix-value", con, ok, mv.module.rel, "" if ok else
                   "prefix %r is %r, expected 1e%d" % (k, v, SI[k]))
        for k in "munpfakMGTPE":
            ok = k in t
            rep.ob("prefix-known", mv.fullname + "[%r]" % k, ok,
                   mv.module.rel, "" if ok else "prefix %r missing" % k)
    for nm in ("si_exp_to_prefixes", "si_exp_to_prefixes_greek"):
        m2 = mvar(prog, nm)
        t2 = num_entries(prog, m2)
        if t2 is None:
            rep.unsure("prefix-table", nm, "", "table not constant")
            continue
        seen = set()
        for k, node in keys_of(m2):
            if k in seen:
                rep.bad("prefix-table", "%s[%r]" % (m2.fullname, k),
                        "%s:%d" % (m2.module.rel, node.lineno),
                        "key %r is given twice" % k)
            seen.add(k)
        for e in range(-24, 25, 3):
            con = "%s[%d]" % (m2.fullname, e)
            if e not in t2:
                rep.bad("prefix-table", con, m2.module.rel,
                        "no prefix for 1e%d" % e)
                continue
            p = t2[e]
            ok = SI.get(p) == e
            rep.ob("prefix-table", con, ok, m2.module.rel, "" if ok else
                   "1e%d is written with prefix %r" % (e, p))
        for e in t2:
            if e not in range(-24, 25, 3):
                rep.ob("prefix-table", "%s[%r]" % (m2.fullname, e),
                       SI.get(t2[e]) == e, m2.module.rel,
                       "prefix %r for 1e%s" % (t2[e], e))


def units(prog, rep):
    mv = mvar(prog, "siunit_names")
    vals = None
    if mv is not None and len(mv.nodes) == 1:
        try:
            vals = ast.literal_eval(mv.nodes[0])
        except Exception:
            pass
    if vals is None:
        rep.unsure("unit-names", "siunit_names", "", "not constant")
        return
    for u in UNITS:
        rep.ob("unit-names", "%s %s" % (mv.fullname, u), u in vals,
               mv.module.rel, "" if u in vals else "unit %r unknown" % u)


def leaves(t, conds=()):
    """[(conditions, leaf)] of a decision tree"""
    if t.op == "phi":
        c, a, b = t.args
        return leaves(a, conds + ((c, True),)) + \
            leaves(b, conds + ((c, False),))
    return [(conds, t)]


def conj_of(conds):
    """positive facts [(term, polarity)]"""
    out = []
    for c, pol in conds:
        if c.op == "and" and pol:
            out += conj_of([(x, True) for x in c.args])
        elif c.op == "not":
            out += conj_of([(c.args[0], not pol)])
        elif c.op == "or" and not pol:
            out += conj_of([(x, False) for x in c.args])
        else:
            out.append((c, pol))
    return out


def is_table(t, name):
    return t.op == "ent" and getattr(t.args[0], "name", "") == name


def splitting(prog, rep):
    fi = prog.func(U + "unit_to_multiplier")
    rep.analysed(fi)
    eng, res = run(prog, fi, depth=3)
    found = False
    for conds, leaf in leaves(res.term):
        if leaf.op != "tuple" or len(leaf.args) != 2:
            rep.unsure("unit-split", fi, loc(fi), show(leaf))
            continue
        m, u = leaf.args
        facts = conj_of(conds)
        eqs = {cval(c.args[2]) for c, p in facts if p and c.op == "cmp" and
               c.args[0] == "Eq" and is_const(c.args[2])} | {
            cval(c.args[1]) for c, p in facts if p and c.op == "cmp" and
            c.args[0] == "Eq" and is_const(c.args[1])}
        if is_const(m):
            v = cval(m)
            if "%" in eqs and is_const(u):
                ok = v == 0.01
                rep.ob("unit-percent", fi, ok, loc(fi), "" if ok else
                       "%% is a factor of %r" % v)
            else:
                ok = v == 1
                rep.ob("unit-plain", fi, ok, loc(fi), "" if ok else
                       "a unit without prefix is multiplied by %r" % (v,))
                if ok and not is_const(u):
                    s = stripped(u)
                    bad = s is None and u.op == "sub"
                    rep.ob("unit-plain", fi.fullname + " unit",
                           False if bad else (True if s else None), loc(fi),
                           "" if not bad else
                           "part of the unit is dropped: %s" % show(u))
            continue
        t, idx = table_lookup(m)
        if t is None:
            rep.unsure("unit-split", fi, loc(fi), show(leaf))
            continue
        found = True
        pre = idx.op == "sub" and is_const(idx.args[1]) and cval(
            idx.args[1]) == 0 or is_first(idx)
        rest = is_rest(u)
        base = idx.args[0] if idx.op == "sub" else None
        base2 = u.args[0] if u.op == "sub" else None
        if not pre or not rest:
            ok = None
            if idx.op == "sub" and u.op == "sub" or u is base:
                ok = False
            rep.ob("unit-split", fi, ok, loc(fi),
                   "prefix %s, remaining unit %s" % (show(idx), show(u)))
            continue
        same = base is base2
        rep.ob("unit-split", fi, True if same else None, loc(fi))
        known = any(p and c.op == "cmp" and c.args[0] == "In" and
                    c.args[1] is u for c, p in facts)
        neg = any(not p and c.op == "cmp" and c.args[0] == "NotIn" and
                  c.args[1] is u for c, p in facts)
        opaque = any(c.op not in ("cmp", "and", "or", "not") or any(
            x.op not in ("and", "or", "not", "cmp", "call", "param", "const",
                         "attr", "ent", "sub", "slice", "builtin") or
            x.op == "call" and short(x.args[0]) not in ("len", "strip",
                                                        "startswith")
            for x in sub(c)) for c, p in facts)
        rep.ob("unit-guard", fi, True if known or neg else
               (None if opaque else False), loc(fi),
               "" if known or neg else "the first letter is taken as prefix "
               "although the rest is not checked to be a unit")
    if not found:
        rep.unsure("unit-split", fi, loc(fi), "no prefix lookup")


def table_lookup(m):
    if m.op == "sub" and m.args[0].op == "ent":
        return m.args[0], m.args[1]
    if m.op == "call" and m.args[0].op == "attr" and m.args[0].args[1] == \
            "get" and m.args[1]:
        return m.args[0].args[0], m.args[1][0]
    return None, None


def is_first(t):
    return t.op == "sub" and is_slice(t.args[1], (None, 1))


def is_rest(t):
    return t.op == "sub" and is_slice(t.args[1], (1, None))


def is_slice(t, want):
    if t.op != "slice":
        return False
    v = [cval(x) if is_const(x) else "?" for x in t.args]
    lo = v[0] if v[0] is not None else 0
    return (lo, v[1]) == (want[0] or 0, want[1]) and v[2] in (None, 1)


def stripped(u):
    if u.op == "param":
        return u
    if u.op == "call" and u.args[0].op == "attr" and u.args[0].args[1] in (
            "strip", "lstrip", "rstrip"):
        return stripped(u.args[0].args[0])
    return None


def scaling(prog, rep):
    """scaled number * 10**exponent is the number; the exponent is a multiple
    of three"""
    fi = prog.func(U + "_help_format_sci")
    x = A("num")

    def go():
        n = 0
        for v, ev in variants(prog, fi, [x, 3]):
            for g in ev.visited:
                rep.analysed(g)
            if not (isinstance(v, tuple) and len(v) == 2):
                rep.unsure("format-scale", fi, loc(fi), repr(v))
                continue
            if any(c and c[0] == "Eq" and t and
                   (equal(rf(c[1]), x) or equal(rf(c[2]), x))
                   for c, t in ev.conds if c):
                continue
            num, e = rf(v[0]), rf(v[1])
            n += 1
            prod = num * power(C(10), e)
            ok = equal(prod, x)
            if not ok:
                ok = with_small(prod, x, ev.conds)
            rep.ob("format-scale", fi, ok, loc(fi), "" if ok else
                   "the number times ten to the exponent is %r" % (
                       canon(prod),))
            m3 = multiple3(e)
            rep.ob("format-step", fi, m3, loc(fi), "" if m3 else
                   "exponent %r is not a multiple of three" % (canon(e),))
        if not n:
            rep.unsure("format-scale", fi, loc(fi), "no value")
    guarded(rep, "format-scale", fi, go)


def multiple3(e):
    e = canon(e)
    if not e.num:
        return True
    for a in e.atoms():
        if isinstance(a, tuple) and a[:2] == ("fn", "mod"):
            y, n = fnargs(a)
            if equal(n, C(3)) and equal(e, y - RF.atom(a)):
                return True
    if list(e.num) == [()]:
        return e.num[()] % 3 == 0
    return None if any(isinstance(a, tuple) and a[0] == "fn" and a[1] not in
                       ("floor", "mod", "log", "sign") for a in e.atoms()) \
        else False


def with_small(prod, x, conds):
    """under 0 <= e < 3 the remainder e % 3 is e"""
    facts = []
    for c, t in conds:
        if c is None:
            continue
        op, p, q = c
        try:
            facts.append((op, t, rf(p), rf(q)))
        except Unsupported:
            pass
    for a in list(prod.atoms()):
        if not (isinstance(a, tuple) and a[:2] == ("fn", "exp")):
            continue
        for m in list(fnargs(a)[0].atoms()):
            if isinstance(m, tuple) and m[:2] == ("fn", "mod"):
                e, n = fnargs(m)
                if not equal(n, C(3)):
                    continue
                lo = any((op, t) in (("GtE", True), ("Lt", False)) and
                         equal(p, e) and equal(q, C(0)) or
                         (op, t) in (("LtE", True), ("Gt", False)) and
                         equal(p, C(0)) and equal(q, e)
                         for op, t, p, q in facts)
                hi = any((op, t) in (("Lt", True), ("GtE", False)) and
                         equal(p, e) and equal(q, C(3)) or
                         (op, t) in (("Gt", True), ("LtE", False)) and
                         equal(p, C(3)) and equal(q, e)
                         for op, t, p, q in facts)
                if lo and hi and equal(
                        prod / RF.atom(a) * power(C(10), e), x):
                    return True
    return False


def calls_of(t, name):
    return [x for x in sub(t) if x.op == "call" and short(x.args[0]) == name]


def part(t, i):
    """t is element i of a unit_to_multiplier result"""
    return t.op == "sub" and is_const(t.args[1]) and cval(
        t.args[1]) == i and t.args[0].op == "call" and short(
        t.args[0].args[0]) == "unit_to_multiplier"


def uses(prog, rep):
    """whatever gets the base unit is scaled by the multiplier"""
    for fi in prog.all_functions():
        if isinstance(fi.node, ast.Lambda) or fi.name == \
                "unit_to_multiplier" or ".tests" in fi.module.name:
            continue
        if not any(isinstance(n, ast.Call) and (
                getattr(n.func, "id", "") == "unit_to_multiplier" or
                getattr(n.func, "attr", "") == "unit_to_multiplier")
                for n in ast.walk(fi.node)):
            continue
        rep.analysed(fi)
        eng, res = run(prog, fi, depth=4, inline=lambda f: f.name not in (
            "unit_to_multiplier", "to_numeric", "replace_dim") and
            f.cls is None)
        n = 0
        for e in eng.events:
            if e.kind == "call":
                u = kwarg(e, "unit")
                if u is None:
                    continue
                src = [x for x in alternatives(u) if part(x, 1)]
                wrong = [x for x in alternatives(u) if part(x, 0)]
                if wrong:
                    rep.bad("unit-use", fi, e.loc,
                            "the multiplier is stored as unit")
                if not src:
                    continue
                n += 1
                data = list(e.args) + [v for k, v in e.kw if k != "unit"]
                scaled = [x for d in data for x in sub(d)
                          if x.op == "bin" and x.args[0] == "Mult" and any(
                              part(y, 0) for a in x.args[1:3]
                              for y in alternatives(a))]
                div = [x for d in data for x in sub(d)
                       if x.op == "bin" and x.args[0] != "Mult" and any(
                           part(y, 0) for a in x.args[1:3]
                           for y in alternatives(a))]
                opq = [x for d in data for x in sub(d) if part(x, 0)]
                ok = bool(scaled) and not div
                rep.ob("unit-use", fi, True if ok else (
                    None if opq and not div else False), e.loc,
                    "" if ok else "a value gets the base unit without being "
                    "multiplied by the prefix")
            elif e.kind == "store_attr" and e.name == "unit" and \
                    e.val is not None and any(
                        part(x, 1) for x in alternatives(e.val)):
                n += 1
                ok = any(x.op == "bin" and x.args[0] == "Mult" and any(
                    part(y, 0) for a in x.args[1:3] for y in alternatives(a))
                    for f in eng.events if f.kind in (
                        "store_sub", "store_attr") and f.val is not None and
                    f.guards[:len(e.guards)] == e.guards[:len(f.guards)]
                    for x in sub(f.val))
                rep.ob("unit-use", fi.fullname + " store",
                       True if ok else False, e.loc, "" if ok else
                       "a variable gets the base unit without being "
                       "multiplied by the prefix")
        if not n:
            rep.unsure("unit-use", fi, loc(fi), "no unit assigned")


def pattern(prog, rep):
    """the number pattern takes the whole exponent"""
    fi = prog.func(U + "string_number_with_unit_to_value")
    rep.analysed(fi)
    eng, res = run(prog, fi, depth=2, inline=lambda f: False)
    pats = []
    for e in eng.events:
        if e.kind == "call" and short(e.obj) == "float" and e.args:
            for x in sub(e.args[0]):
                if x.op == "ent" and isinstance(x.args[0], ModVar):
                    pats.append(x.args[0])
    done = False
    for mv in pats:
        for n in mv.nodes:
            if isinstance(n, ast.Call) and n.args and isinstance(
                    n.args[0], ast.Constant):
                r = exponent_digits(n.args[0].value)
                done = True
                rep.ob("number-pattern", mv.fullname, r, "%s:%d" % (
                    mv.module.rel, n.lineno), "" if r else
                    "the pattern %r does not take every digit of an exponent"
                    % n.args[0].value)
    if not done:
        rep.unsure("number-pattern", fi, loc(fi), "pattern not found")
    # value and unit come from the number and what follows it
    for e in eng.events:
        if e.kind == "call" and short(e.obj) == "convert_with_unit":
            u = kwarg(e, "unit", 0)
            v = kwarg(e, "value", 1)
            isnum = v is not None and any(
                x.op == "call" and short(x.args[0]) == "float"
                for x in sub(v))
            unum = u is not None and any(
                x.op == "call" and short(x.args[0]) == "float"
                for x in sub(u))
            rep.ob("number-unit", fi, True if isnum and not unum else (
                False if unum else None), e.loc, "" if not unum else
                "the number is passed as unit")
            for x in alternatives(u) if u is not None else ():
                if x.op == "call" and x.args[0].op == "attr" and \
                        x.args[0].args[1] == "group":
                    g = x.args[1]
                    ok = bool(g) and is_const(g[0]) and cval(g[0]) == 1
                    whole = not g or is_const(g[0]) and cval(g[0]) == 0
                    rep.ob("number-unit", fi.fullname + " group",
                           True if ok else (False if whole else None),
                           e.loc, "" if ok else "the unit includes the "
                           "surrounding brackets")


def exponent_digits(pat):
    """True: an e/E in the pattern is followed by a digit class repeated
    without bound; False: by a bounded one; None: no such structure"""
    try:
        p = sre_parse.parse(pat)
    except Exception:
        return None
    found = []

    def flat(items):
        """sequence of (op, arg) with groups and repeats of one item kept"""
        for op, av in items:
            yield op, av

    def is_e(op, av):
        s = str(op)
        if s == "LITERAL":
            return chr(av) in "eE"
        if s == "IN":
            cs = [chr(a) for o, a in av if str(o) == "LITERAL"]
            rng = [o for o, a in av if str(o) == "RANGE"]
            return not rng and set(cs) <= set("eE") and bool(cs)
        if s in ("MAX_REPEAT", "MIN_REPEAT"):
            return len(av[2]) == 1 and is_e(*av[2][0])
        return False

    def has_digit(op, av):
        s = str(op)
        if s == "IN":
            return any(str(o) == "RANGE" and a[0] <= 48 and a[1] >= 57 or
                       str(o) == "CATEGORY" and "DIGIT" in str(a)
                       for o, a in av)
        if s in ("MAX_REPEAT", "MIN_REPEAT"):
            return len(av[2]) == 1 and has_digit(*av[2][0])
        if s == "SUBPATTERN":
            return any(has_digit(*x) for x in av[3])
        return False

    def walk(items):
        items = list(items)
        for i, (op, av) in enumerate(items):
            if is_e(op, av):
                for op2, av2 in items[i + 1:]:
                    if has_digit(op2, av2):
                        if str(op2) in ("MAX_REPEAT", "MIN_REPEAT"):
                            found.append(str(av2[1]) == "MAXREPEAT")
                        else:
                            found.append(False)
                        break
            s = str(op)
            if s in ("MAX_REPEAT", "MIN_REPEAT"):
                walk(av[2])
            elif s == "SUBPATTERN":
                walk(av[3])
            elif s == "BRANCH":
                for b in av[1]:
                    walk(b)
    walk(p)
    if not found:
        return None
    return all(found)


def formatting(prog, rep):
    """format_number: the prefix belongs to the exponent of the number shown;
    greek selects the greek table"""
    fi = prog.func(U + "format_number")
    rep.analysed(fi)
    eng, res = run(prog, fi, depth=2, inline=lambda f: False)
    terms = [x for e in eng.events for v in [e.val] + list(e.args) +
             [k[1] for k in e.kw] if v is not None for x in sub(v)]
    terms += list(sub(res.term))
    looks = []
    for x in content_terms(eng) + terms:
        t, idx = table_lookup(x)
        if t is not None and t.op == "ent" and isinstance(
                t.args[0], ModVar) and t.args[0].name.startswith(
                    "si_exp_to_prefixes"):
            looks.append((t.args[0].name, idx))
    if not looks:
        rep.unsure("format-prefix", fi, loc(fi), "no prefix lookup")
        return
    for nm, idx in looks:
        ok = idx.op == "sub" and is_const(idx.args[1]) and cval(
            idx.args[1]) == 1 and short(idx.args[0].args[0]) == \
            "_help_format_sci" if idx.op == "sub" and \
            idx.args[0].op == "call" else None
        if ok:
            ok = call_on_param(idx.args[0])
        rep.ob("format-prefix", fi.fullname + " " + nm, ok, loc(fi),
               "" if ok else "prefix looked up with %s" % show(idx))
    # greek flag
    allt = content_terms(eng) + terms
    for x in allt:
        if x.op == "phi" and x.args[0].op in ("param", "not"):
            c, p, q = x.args
            if c.op == "not":
                c, p, q = c.args[0], q, p
            if not (c.op == "param" and c.args[0] == "greek"):
                continue
            tn = [{getattr(y.args[0], "name", "") for y in sub(z)
                   if y.op == "ent"} for z in (p, q)]
            g, pl = "si_exp_to_prefixes_greek", "si_exp_to_prefixes"
            if {g, pl} <= tn[0] | tn[1]:
                ok = g in tn[0] and pl in tn[1]
                rep.ob("format-greek", fi, ok, loc(fi), "" if ok else
                       "greek=True uses the plain prefixes")
    # the number shown is the scaled number, the text next to it the prefix
    for c in eng.contents_log.values():
        for en in c:
            if en[0] != "set" or not is_const(en[1]) or not hasattr(
                    en[2], "op"):
                continue
            k, v = cval(en[1]), en[2]
            sci = {cval(x.args[1]) for x in sub(v) if x.op == "sub" and
                   is_const(x.args[1]) and x.args[0].op == "call" and
                   short(x.args[0].args[0]) == "_help_format_sci"}
            if k == "num" and sci:
                ok = sci == {0}
                rep.ob("format-number", fi, ok, loc(fi), "" if ok else
                       "the number shown is element %s of the scaled pair"
                       % sorted(sci))
            if k == "num":
                for x in sub(v):
                    if x.op == "phi" and is_const(x.args[1]) and is_const(
                            x.args[2]) and {cval(x.args[1]), cval(
                                x.args[2])} == {"inf", "-inf"}:
                        r = positive(x.args[0])
                        if r is not None:
                            ok = (cval(x.args[1]) == "inf") == r
                            rep.ob("format-inf", fi, ok, loc(fi), "" if ok
                                   else "the sign of infinity is inverted")
            if k == "unit":
                has = any(x.op == "param" and x.args[0] == "unit"
                          for x in sub(v))
                rep.ob("format-unit", fi, has, loc(fi), "" if has else
                       "the unit is not written")


def positive(c):
    """True when the condition says number > 0, False for number < 0"""
    if c.op == "not":
        r = positive(c.args[0])
        return None if r is None else not r
    if c.op != "cmp":
        return None
    op, a, b = c.args
    if is_const(a) and cval(a) == 0 and b.op == "param":
        return {"Lt": True, "LtE": True, "Gt": False, "GtE": False}.get(op)
    if is_const(b) and cval(b) == 0 and a.op == "param":
        return {"Gt": True, "GtE": True, "Lt": False, "LtE": False}.get(op)
    return None


def call_on_param(t):
    a = t.args[1]
    return True if a and any(x.op == "param" and x.args[0] == "number"
                             for x in sub(a[0])) else None


def content_terms(eng):
    out = []
    for c in eng.contents_log.values():
        for en in c:
            for v in en[1:3]:
                if hasattr(v, "op"):
                    out += list(sub(v))
    return out


def axis_labels(prog, rep):
    """UnitFormatter: ticks are divided by ten to the exponent whose prefix
    is written in the label"""
    ci = prog.cls("hftools.plotting.helper:UnitFormatter")
    fi = ci.methods.get("__call__")
    if fi is None:
        raise AnalysisBroken("UnitFormatter.__call__")
    rep.analysed(fi)
    eng, res = run(prog, fi, depth=2, inline=lambda f: False)
    exps = set()
    for e in eng.events:
        if e.kind == "call" and e.obj is not None and e.obj.op == "attr" and \
                e.obj.args[1] == "get" and e.args and \
                e.obj.args[0].op == "ent" and "prefix" in getattr(
                    e.obj.args[0].args[0], "name", ""):
            exps.add(e.args[0])
    calls = [e for e in eng.events if e.kind == "call" and short(e.obj) ==
             "__call__" and len(e.args) >= 2]
    if not exps or not calls:
        rep.unsure("label-scale", fi, loc(fi), "no prefix lookup")
        return
    for e in calls:
        v = e.args[1]
        if v.op != "bin" or v.args[0] != "Div":
            bad = v.op == "param" or v.op == "bin" and v.args[0] == "Mult"
            rep.ob("label-scale", fi, False if bad else None, e.loc,
                   "tick value is %s" % show(v))
            continue
        for d in alternatives(v.args[2]):
            if is_const(d):
                rep.ob("label-scale", fi, cval(d) == 1, e.loc,
                       "tick divided by %r" % (cval(d),))
            elif d.op == "bin" and d.args[0] == "Pow":
                ok = is_const(d.args[1]) and cval(d.args[1]) == 10 and \
                    d.args[2] in exps
                rep.ob("label-scale", fi, ok, e.loc, "" if ok else
                       "ticks are divided by %s, the prefix is that of %s" % (
                           show(d), [show(x) for x in exps]))
            else:
                rep.unsure("label-scale", fi, e.loc, show(d))
