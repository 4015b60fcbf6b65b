"""Malformed measurement files are refused, not silently accepted."""
import ast

from ..engine import cval, is_const, show
from ..lib import decide, fname, kwarg, loc, resolve, run, short
from ..refuse import (always_raises, handler_names, is_match, is_tag, leaves,
                      member, prefix, raises, refusal, swallowed)
from .c12 import find
from .c13 import walk

RULE = (
    "For each kind of malformed file the tests a reader makes on it are "
    "assumed to turn out as they would for such a file; a raise that is "
    "reached under exactly these must exist, and no handler on the way out "
    "may swallow it. Required tokens of the block grammars are enumerated "
    "from the parser combinators; every handler in the readers is checked "
    "for swallowing refusals or failed number conversions.")
MIN = 30
PKG = "hftools.file_formats"
TS, CI, MD, SP, RB = (PKG + "." + x for x in (
    "touchstone", "citi", "mdif", "spdata", "readbase"))
READERS = (TS, CI, MD, SP, RB, PKG, PKG + ".hdf5.v_01", PKG + ".hdf5.v_02",
           PKG + ".hdf5.hdf5")


def inl(fi):
    return fi.module.name.startswith(PKG) and "omments" not in fi.fullname


def check(prog, rep, tier):
    rep.parts(*[(f, (prog, rep)) for f in (
        ts_lines, ts_info, ts_rows, citi_lines, citi_types, citi_grammar,
        sp_grammar, sp_rows, mdif_grammar, mdif_types, mdif_rows, mdif_names,
        no_blocks, no_files, handlers, decoding, trailing)])


def get(prog, rep, rule, mod, *names):
    for n in names:
        fi = find(prog, mod, n)
        if fi is not None:
            return fi
    rep.unsure(rule, mod, "", "%s not found" % names[0])
    return None


def method(prog, rep, rule, mod, name):
    """the reader class's method"""
    for c in prog.all_classes():
        if c.module.name == mod and "ReadFileFormat" in [
                x.name for x in c.mro()]:
            m = c.find(name)
            if m is not None:
                return m
    rep.unsure(rule, mod, "", "%s not found" % name)
    return None


def line_facts(true=(), match=None, strip=True):
    """how tests on a line turn out: prefixes, regular expressions"""
    def facts(c):
        p = prefix(c)
        if p is not None:
            ps = p[1] if isinstance(p[1], tuple) else (p[1],)
            return any(x in true for x in ps)
        if is_match(c):
            return match
        if c.op == "cmp" and c.args[0] in ("Is", "Eq") and \
                is_match(c.args[1]) and is_const(c.args[2]) and \
                cval(c.args[2]) is None:
            return None if match is None else not match
        if c.op == "call" and short(c.args[0]).startswith("is_") and \
                c.args[1]:
            return match
        if is_line(c):
            return True
        return None
    return facts


def is_line(t):
    """(part of) the line itself, used as a truth value: not empty"""
    while t.op == "call" and t.args[0].op == "attr" and \
            t.args[0].args[1] in ("strip", "lstrip", "rstrip"):
        t = t.args[0].args[0]
    return t.op == "elem"


def ts_lines(prog, rep):
    rule = "touchstone-option-line"
    fi = method(prog, rep, rule, TS, "tokenize")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(fi)
    refusal(rep, rule, fi, eng, line_facts(("#",), False),
            lambda c: is_match(c) or c.op == "call" and
            short(c.args[0]).startswith("is_"),
            "a # line that is no touchstone option line")


def tag_facts(eng, **kw):
    """tests on token tags; kw: tag -> truth"""
    def facts(c):
        m = member(eng, c)
        if m is not None and is_tag(m[0]) and all(
                isinstance(x, str) for x in m[1]):
            vs = {kw.get(x) for x in m[1]}
            if True in vs:
                return True
            if vs == {False} or any(v is True for v in kw.values()):
                return False
            return None
        return None
    return facts


def is_tagtest(eng):
    def key(c):
        m = member(eng, c)
        return m is not None and is_tag(m[0])
    return key


def none_test(c):
    if c.op == "cmp" and c.args[0] in ("Is", "Eq") and is_const(
            c.args[2]) and cval(c.args[2]) is None:
        return c.args[1]
    return None


def ts_info(prog, rep):
    rule = "touchstone-option-line"
    fi = method(prog, rep, rule, TS, "parse_blocks")
    if fi is None:
        return
    keep = {"proc_data", "proc_info"}
    eng, res = run(prog, fi, inline=lambda f: inl(f) and f.name not in keep,
                   depth=5)
    rep.analysed(fi)
    tf = tag_facts(eng, Info=True)
    tt = is_tagtest(eng)

    def second(c):
        x = none_test(c)
        if x is not None:
            return False
        if c.op in ("loop", "var") or c.op == "obj":
            return True
        return tf(c)
    refusal(rep, rule, fi, eng, second, tt, "a second # line",
            vocab=lambda c: False)

    def none(c):
        x = none_test(c)
        if x is not None:
            return True
        if c.op == "loop":
            return False
        return None
    refusal(rep, rule, fi, eng, none,
            lambda c: none_test(c) is not None or c.op == "loop",
            "no # line at all", vocab=tt)
    fi = get(prog, rep, rule, TS, "proc_info")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(fi)
    info = fi.params[0]

    def nlen(c):
        m = member(eng, c)
        return m is not None and m[0].op == "call" and short(
            m[0].args[0]) == "len" and any(
                x.op == "param" and x.args[0] == info for x in walk(m[0]))

    def fmt(c):
        return c.op == "cmp" and c.args[0] in ("In", "Eq") and any(
            x.op == "param" and x.args[0] == info for x in walk(c.args[1])) \
            and not nlen(c)
    refusal(rep, rule, fi, eng, lambda c: False if nlen(c) else None, nlen,
            "an option line with neither three nor five fields", vocab=fmt)
    guards = [c for e in raises(eng) for c, p in e.guards if fmt(c)]
    if guards:
        refusal(rep, rule, fi, eng, lambda c: False if fmt(c) else None, fmt,
                "an unknown number format", vocab=nlen)
    else:
        # a plain table lookup raises KeyError; .get does not
        soft = [e for e in eng.events if e.kind == "call" and
                e.obj.op == "attr" and e.obj.args[1] == "get" and
                len(e.args) > 1 and any(
                    x.op == "param" and x.args[0] == info
                    for x in walk(e.args[0]))]
        rep.ob(rule, fi, not soft, soft[0].loc if soft else loc(fi),
               "an unknown number format" + (
                   ": a default is used for it" if soft else ""))
    soft = [e for e in eng.events if e.kind == "call" and e.obj.op == "attr"
            and e.obj.args[1] == "get" and len(e.args) > 1 and any(
                x.op == "param" and x.args[0] == info
                for x in walk(e.args[0]))]
    rep.ob(rule, fi, not soft, soft[0].loc if soft else loc(fi),
           "fields of the option line outside their tables" + (
               ": %s is used for them" % show(soft[0].args[1])[:60]
               if soft else ""))


def ts_rows(prog, rep):
    rule = "touchstone-rows"
    fi = get(prog, rep, rule, TS, "_process_data")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=lambda f: False, depth=5)
    rep.analysed(fi)
    acc = []
    for e in eng.events:
        if e.kind == "mut" and e.name == "extend" and e.args and \
                e.args[0].op == "elem":
            acc.append(e.obj)
    if len(set(acc)) != 1:
        rep.unsure(rule, fi, loc(fi), "row accumulator not recognised")
        return
    X = acc[0]

    def islen(t):
        return t.op == "call" and short(t.args[0]) == "len" and \
            t.args[1] and t.args[1][0] == X

    def left(c):
        if c == X:
            return True
        if c.op == "cmp" and any(islen(x) for x in c.args[1:]):
            o = [x for x in c.args[1:] if not islen(x)]
            if o and is_const(o[0]) and cval(o[0]) == 0:
                op = c.args[0]
                return {"Eq": False, "NotEq": True, "Lt": islen(c.args[2]),
                        "Gt": islen(c.args[1])}.get(op)
        return None
    bad, und = [], []
    for t, path in resolve(res.term, left):
        a = t.args[0] if t.op == "tuple" and t.args else t
        if is_const(a) and not cval(a):
            continue
        if t.op != "tuple":
            und.append(t)
        elif any(mentions(c, X) for c, p in path if not full_test(c, islen)):
            und.append(t)
        else:
            bad.append(t)
    if bad:
        rep.ob(rule, fi, False, loc(fi), "values left over after the last "
               "complete row are dropped: %s is returned" %
               show(bad[0])[:80])
    elif und:
        rep.unsure(rule, fi, loc(fi), show(und[0])[:80])
    else:
        rep.ob(rule, fi, True, loc(fi), "left-over values refused")
    for e in eng.events:
        if e.kind != "mut" or e.name != "append" or not e.args or \
                not any(x == X for x in walk(e.args[0])):
            continue
        if e.args[0] != X:
            rep.ob(rule, fi, False, e.loc, "only %s of the row is kept" %
                   show(e.args[0])[:60]) if e.args[0].op == "sub" else \
                rep.unsure(rule, fi, e.loc, show(e.args[0])[:80])
            continue

        def longer(c):
            if c.op == "cmp" and any(islen(x) for x in c.args[1:]):
                op = c.args[0]
                first = islen(c.args[1])
                return {"Eq": False, "NotEq": True, "Lt": not first,
                        "LtE": not first, "Gt": first, "GtE": first}.get(op)
            return None
        vs = [(decide(c, longer), p) for c, p in e.guards]
        ok = any(v is not None and v is not p for v, p in vs)
        if ok or all(v is not None for v, p in vs) and vs:
            rep.ob(rule, fi, ok, e.loc, "rows longer than the port count "
                   "allows are %s" % ("refused" if ok else "accepted"))
        elif any(v is not None for v, p in vs) or not vs:
            rep.ob(rule, fi, False, e.loc, "rows longer than the port count "
                   "allows are accepted")
        else:
            rep.unsure(rule, fi, e.loc, "length test not recognised")
    fi = get(prog, rep, rule, TS, "process_data")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=lambda f: False, depth=5)
    rep.analysed(fi)
    rs = [e for e in raises(eng) if not swallowed(e)]
    rep.ob(rule, fi, bool(rs), rs[0].loc if rs else loc(fi),
           "data that fits no number of ports" +
           ("" if rs else ": no error is raised"))


def full_test(c, islen):
    return c.op == "cmp" and any(islen(x) for x in c.args[1:])


def mentions(c, X):
    return any(x == X for x in walk(c))


def citi_lines(prog, rep):
    rule = "citi-line"
    fi = method(prog, rep, rule, CI, "tokenize")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(fi)
    lf = line_facts((), False)

    def facts(c):
        if c.op == "attr" and c.args[1] == "verbose":
            return None
        return lf(c)
    refusal(rep, rule, fi, eng, facts,
            lambda c: prefix(c) is not None or is_match(c),
            "a line of no known kind")


def citi_types(prog, rep):
    rule = "citi-type"
    fi = get(prog, rep, rule, CI, "handle_data")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(fi)
    typ = fi.params[-1]

    def tt(c):
        if c.op != "cmp":
            return False
        return c.args[0] in ("Eq", "In") and any(
            x.op == "param" and x.args[0] == typ for x in walk(c.args[1]))
    soft = [e for e in eng.events if e.kind == "call" and e.obj.op == "attr"
            and e.obj.args[1] == "get" and len(e.args) > 1]
    if not raises(eng) and not soft and any(
            x.op == "sub" and any(y.op == "param" and y.args[0] == typ
                                  for y in walk(x.args[1]))
            for x in walk(res.term)):
        rep.ob(rule, fi, True, loc(fi), "looked up by its type")
        return
    refusal(rep, rule, fi, eng, lambda c: False if tt(c) else None, tt,
            "a number type other than MAG, RI and MAGANGLE")


def tags(eng, e):
    """the tags one of which this raise says must come, or None"""
    out = None
    for c, pol in e.guards:
        m = member(eng, c)
        if m is not None and is_tag(m[0]) and not pol and all(
                isinstance(x, str) for x in m[1]):
            out = m[1]
    return out


def required(rep, rule, fi, eng, want, vocab):
    for names in want:
        def facts(c, names=names):
            m = member(eng, c)
            if m is not None and is_tag(m[0]) and all(
                    isinstance(x, str) for x in m[1]):
                if m[1] <= names:
                    return False
            return None

        def key(c, names=names):
            m = member(eng, c)
            return m is not None and is_tag(m[0]) and m[1] == names
        tt = is_tagtest(eng)
        hits = [e for e in raises(eng) if any(
            key(c) and not p for c, p in e.guards)]
        und = [e for e in raises(eng) if tags(eng, e) is None and not all(
            vocab(c) or tt(c) for c, p in e.guards)]
        off = [e for e in hits if swallowed(e)]
        ok = [e for e in hits if e not in off]
        what = "a file without %s here" % " or ".join(sorted(names))
        strong = [e for e in ok if all(
            key(c) or vocab(c) or tt(c) for c, p in e.guards)]
        # a generic refusal: names computed at run time
        opaque = [e for e in raises(eng) if any(
            c.op == "cmp" and c.args[0] in ("In", "Eq") and is_tag(
                c.args[1]) and member(eng, c) is None
            for c, p in e.guards)]
        if strong:
            rep.ob(rule, fi, True, strong[0].loc, what)
        elif ok or und or opaque:
            rep.unsure(rule, fi, loc(fi), what)
        elif off:
            rep.ob(rule, fi, False, off[0].loc, what + ": the error is "
                   "swallowed")
        else:
            rep.ob(rule, fi, False, loc(fi), what + " is accepted: the "
                   "token is not required")


def citi_grammar(prog, rep):
    rule = "citi-grammar"
    fi = method(prog, rep, rule, CI, "parse_blocks")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=inl, depth=6)
    rep.analysed(fi, *[f for f in (find(prog, RB, n) for n in (
        "One", "OneOf", "ManyOptional", "Optional")) if f is not None])

    def vocab(c):
        p = prefix(c)
        if p is not None:
            return True
        m = member(eng, c)
        return m is not None and m[0].op != "param" or none_test(c) is not \
            None or c.op == "exc"
    required(rep, rule, fi, eng, [
        {"NAME"}, {"VAR_LIST_BEGIN", "SEG_LIST_BEGIN"}, {"VAR_LIST_END"},
        {"SEG"}, {"SEG_LIST_END"}, {"DATA_LIST_BEGIN"}, {"DATA_LIST_END"}],
        vocab)
    # one value for every point of the declared sweeps
    rule = "citi-count"
    cut = [e for e in eng.events if e.kind == "call" and short(e.obj) in (
        "resize", "pad", "islice")]
    shp = [e for e in eng.events if e.kind == "store_attr" and
           e.name == "shape"] + [
        e for e in eng.events if e.kind == "call" and
        short(e.obj) == "reshape"]
    if cut:
        rep.ob(rule, fi, False, cut[0].loc, "a data block of the wrong "
               "length is padded or cut to the size of the sweeps")
    else:
        rep.ob(rule, fi, True, shp[0].loc if shp else loc(fi),
               "the number of values must fit the sweeps")


def ends(prog, rep, rule, fi, eng, inside, what, again=()):
    """a stream that ends inside a block: the handlers of StopIteration
    around the tokens `inside` must raise"""
    done = False
    for n in ast.walk(fi.node):
        if not isinstance(n, ast.Try):
            continue
        hs = [h for h in n.handlers if handler_names(h) & {
            "StopIteration", "Exception", "BaseException"}]
        if not hs or not inside(n):
            continue
        done = True
        soft = [h for h in hs if not leaves(h)]
        rep.ob(rule, fi, not soft, loc(fi, soft[0] if soft else n),
               what + (" is accepted" if soft else ""))
    if not done:
        rep.ob(rule, fi, True, loc(fi), what + ": the exhausted iterator "
               "raises")


def sp_grammar(prog, rep):
    rule = "spdata-grammar"
    fi = method(prog, rep, rule, SP, "group_blocks")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(fi)
    tt = is_tagtest(eng)

    def head(v):
        def facts(c):
            m = member(eng, c)
            if m is not None and is_tag(m[0]):
                return v
            if c.op in ("loop", "const") and c.op == "loop":
                return True
            return None
        return facts

    def noexc(c):
        return c.op == "exc"
    refusal(rep, rule, fi, eng, head(False),
            lambda c: (member(eng, c) or (0, ()))[1] == {"Header"},
            "a block without header", vocab=lambda c: True,
            want=lambda e: not any(c.op == "exc" for c, p in e.guards))
    for tag in ("Comment", "Header"):
        stops = [e for e in raises(eng) if any(
            c.op == "exc" and p and fname(c.args[2]).endswith(
                "StopIteration") for c, p in e.guards) and any(
            (member(eng, c) or (0, ()))[1] == {tag} and p
            for c, p in e.guards)]
        # every handler of StopIteration reached after this tag
        soft = []
        for e in eng.events:
            ex = [c for c, p in e.guards if c.op == "exc" and p]
            if not ex or e.kind == "raise" or e.kind not in (
                    "return", "break", "continue", "yield", "store"):
                continue
            if any((member(eng, c) or (0, ()))[1] == {tag} and p
                   for c, p in e.guards):
                soft.append(e)
        what = "a file that ends after a %s line" % tag.lower()
        trys = [n for n in ast.walk(fi.node) if isinstance(n, ast.Try)]
        if stops:
            rep.ob(rule, fi, True, stops[0].loc, what)
        elif soft:
            rep.ob(rule, fi, False, soft[0].loc, what + " is accepted")
        elif len(trys) < 1:
            rep.ob(rule, fi, True, loc(fi), what + ": the exhausted "
                   "iterator raises")
        else:
            rep.unsure(rule, fi, loc(fi), what)


def sp_rows(prog, rep):
    rule = "spdata-rows"
    fi = method(prog, rep, rule, SP, "parse_blocks")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=inl, depth=5)
    rep.analysed(fi)
    seen = []
    for e in raises(eng):
        for c, p in e.guards:
            for x in expand(eng, c):
                if x.op != "call" or short(x.args[0]) != "len":
                    continue
                a = x.args[1][0]
                if a.op == "elem":
                    seen.append((e, "every"))
                elif a.op == "sub" and is_const(a.args[1]) and isinstance(
                        cval(a.args[1]), int) and is_rows(a.args[0]):
                    seen.append((e, "row %d" % cval(a.args[1])))
    kinds = {k for e, k in seen}
    what = "rows with another number of columns than the header"
    if "every" in kinds:
        e = [e for e, k in seen if k == "every"][0]
        h = swallowed(e)
        rep.ob(rule, fi, h is None, e.loc, what + (
            " are skipped" if h is not None else ""))
    elif kinds:
        rep.ob(rule, fi, False, seen[0][0].loc, what + " are accepted: only "
               "%s is compared" % sorted(kinds)[0])
    elif not raises(eng):
        cut = [e for e in eng.events if e.kind == "call" and
               short(e.obj) in ("zip", "zip_longest", "izip")]
        if cut:
            rep.ob(rule, fi, False, cut[0].loc, what + " are cut to the "
                   "shortest: no error is raised")
        else:
            rep.unsure(rule, fi, loc(fi), what)
    else:
        rep.unsure(rule, fi, loc(fi), what)


def is_rows(t):
    return t.op in ("sub", "elem", "param", "loop", "obj")


def expand(eng, c, d=0):
    """subterms of a condition, also inside the generators it consumes"""
    for x in walk(c):
        yield x
        if x.op == "obj" and d < 3:
            for k in eng.contents_log.get(x, ()):
                for y in (k[2],):
                    for z in expand(eng, y, d + 1):
                        yield z
                for g in k[3]:
                    for z in expand(eng, g[0], d + 1):
                        yield z


def mdif_grammar(prog, rep):
    rule = "mdif-grammar"
    fi = method(prog, rep, rule, MD, "group_blocks")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=inl, depth=6)
    rep.analysed(fi)

    def vocab(c):
        return c.op == "exc" or prefix(c) is not None or \
            none_test(c) is not None
    required(rep, rule, fi, eng, [{"BEGIN"}, {"END"}], vocab)
    # a file that ends inside a block
    for tag in ("BEGIN", "END"):
        for e in raises(eng):
            if tags(eng, e) != {tag}:
                continue
            what = "a file that ends before %s" % tag
            soft = None
            for s in e.trys:
                for h in s.handlers:
                    if handler_names(h) & {"StopIteration", "Exception",
                                           "BaseException"} and \
                            not leaves(h):
                        soft = soft or h
            rep.ob(rule, fi, soft is None, loc(fi, soft) if soft is not None
                   else e.loc, what + (": the end of the stream is swallowed"
                                       if soft is not None else ""))


def mdif_types(prog, rep):
    rule = "mdif-type"
    for name in ("proc_attrib", "proc_var"):
        fi = method(prog, rep, rule, MD, name)
        if fi is None:
            continue
        eng, res = run(prog, fi, inline=inl, depth=5)
        rep.analysed(fi)

        def tt(c):
            m = member(eng, c)
            return m is not None and all(isinstance(x, str) for x in m[1])
        what = "a %s of a type that is not implemented" % name[5:]
        if not raises(eng) and any(
                x.op == "sub" and x.args[0].op == "obj" and
                x.args[0].args[0] == "dict" for x in walk(res.term)):
            rep.ob(rule, fi, True, loc(fi), what)
            continue
        refusal(rep, rule, fi, eng, lambda c: False if tt(c) else None, tt,
                what, vocab=lambda c: prefix(c) is not None)
    for c in prog.all_classes():
        if c.module.name != MD:
            continue
        fi = c.find("parse_header")
        if fi is None:
            continue
        eng, res = run(prog, fi, inline=inl, depth=5)
        rep.analysed(fi)
        refusal(rep, rule, fi, eng, line_facts((), False), lambda c: is_match(
            c) or any(is_match(x) for x in walk(c)),
            "a column without or with an unknown type")


def mdif_rows(prog, rep):
    rule = "mdif-rows"
    for c in prog.all_classes():
        if c.module.name != MD:
            continue
        fi = c.find("parse_data")
        if fi is None:
            continue
        eng, res = run(prog, fi, inline=inl, depth=3)
        rep.analysed(fi)
        src = fi.params[-1]

        def row(t):
            return t.op == "call" and short(t.args[0]) == "split" and any(
                x.op == "param" and x.args[0] == src for x in walk(t))

        def facts(c):
            if row(c):
                return True
            if c.op == "cmp" and any(
                    x.op == "call" and short(x.args[0]) == "len" and
                    any(row(y) for y in x.args[1])
                    for x in c.args[1:]):
                return {"Eq": False, "NotEq": True}.get(c.args[0])
            return None
        refusal(rep, rule, fi, eng, facts, lambda c: facts(c) is not None,
                "a line with more values than the header has variables",
                vocab=lambda c: c.op == "param")


def mdif_names(prog, rep):
    rule = "mdif-block"
    fi = method(prog, rep, rule, MD, "read_file")
    if fi is None or fi.module.name != MD:
        return
    eng, res = run(prog, fi, inline=lambda f: False, depth=5)
    rep.analysed(fi)
    bn = "blockname"

    def facts(c):
        if c.op == "param" and c.args[0] == bn:
            return True
        if none_test(c) is not None and none_test(c).op == "param" and \
                none_test(c).args[0] == bn:
            return False
        if key(c):
            return False
        if empty(c) is not None:  # there are files
            return not empty(c)
        return None

    def key(c):
        return c.op == "cmp" and c.args[0] == "In" and \
            c.args[1].op == "param" and c.args[1].args[0] == bn
    hard = [x for t, p in resolve(res.term, facts) for x in walk(t)
            if x.op == "sub" and x.args[1].op == "param" and
            x.args[1].args[0] == bn]
    soft = [x for t, p in resolve(res.term, facts) for x in walk(t)
            if x.op == "call" and short(x.args[0]) == "get"]
    if hard and not soft and not any(
            key(c) for e in raises(eng) for c, p in e.guards):
        rep.ob(rule, fi, True, loc(fi), "looked up by its name")
    else:
        refusal(rep, rule, fi, eng, facts, key,
                "a block name that is not in the file",
                vocab=lambda c: c.op in ("param", "obj", "call", "phi"))


def empty(c):
    """truth of a condition for an empty collection"""
    if c.op in ("obj", "call", "phi", "sub"):
        if c.op == "call" and short(c.args[0]) not in (
                "list", "glob", "tuple", "sorted", "len", "lex_order"):
            return None
        return False
    if c.op == "cmp":
        ln = [x for x in c.args[1:] if x.op == "call" and
              short(x.args[0]) == "len"]
        ot = [x for x in c.args[1:] if x not in ln]
        if len(ln) == 1 and ot and is_const(ot[0]) and cval(ot[0]) in (0, 1):
            n, op, k = 0, c.args[0], cval(ot[0])
            a, b = (n, k) if c.args[1] in ln else (k, n)
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b,
                    "LtE": a <= b, "Gt": a > b, "GtE": a >= b}.get(op)
        if is_const(c.args[2]) or c.args[2].op == "obj":
            return None
    return None


def no_blocks(prog, rep):
    rule = "empty-file"
    fi = method(prog, rep, rule, RB, "do_file")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=lambda f: f.module.name == RB and
                   not f.name.startswith("_") and f.name not in (
                       "tokenize", "group_blocks", "parse_blocks",
                       "make_cplx", "fix_unit"), depth=3)
    rep.analysed(fi)
    refusal(rep, rule, fi, eng, empty, lambda c: empty(c) is not None,
            "a file with no block in it",
            vocab=lambda c: c.op in ("attr", "call"))


def no_files(prog, rep):
    rule = "no-file"
    for mod in (RB, MD):
        fi = method(prog, rep, rule, mod, "read_file")
        if fi is None:
            continue
        eng, res = run(prog, fi, inline=lambda f: False, depth=3)
        rep.analysed(fi)

        def facts(c):
            if c.op == "param" and c.args[0] == "multiple_files":
                return True
            if c.op == "isinstance":
                return None
            return empty(c)
        refusal(rep, rule, fi, eng, facts,
                lambda c: empty(c) is not None,
                "a pattern that matches no file",
                vocab=lambda c: c.op in ("param", "attr", "cmp"))


# handlers --------------------------------------------------------------------

REFUSALS = {"Exception", "BaseException", "ParseError", "FileFormatError",
            "TouchstoneError", "CITIFileError", "SPDataIOError", "MDIFError",
            "HFToolsIOError", "IOError", "OSError", "EnvironmentError",
            "HFToolsHyperCubeError"}
CONV = {"ValueError", "TypeError", "IndexError", "KeyError", "Exception",
        "BaseException", "ArithmeticError", "RuntimeError", "LookupError"}
NUMBER = {"float", "int", "complex", "to_numeric", "datetime64"}


def callees(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            out.add(f.id if isinstance(f, ast.Name) else
                    f.attr if isinstance(f, ast.Attribute) else "")
        if isinstance(x, ast.Name) and x.id in NUMBER:
            out.add(x.id)
    return out - {""}


def handlers(prog, rep):
    rule = "swallowed"
    funs, refusers, convert = {}, set(), set(NUMBER)
    for fi in prog.all_functions():
        if not fi.module.name.startswith(PKG) or fi.module.name.startswith(
                PKG + ".config") or "muwave" in fi.module.name or \
                "slask" in fi.module.name or fi.module.name == PKG + \
                ".common":
            continue
        funs.setdefault(fi.name, []).append(fi)
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Raise) and x.exc is not None:
                refusers.add(fi.name)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id in NUMBER:
                convert.add(fi.name)
    for S in (refusers, convert):
        grew = True
        while grew:
            grew = False
            for n, fs in funs.items():
                if n not in S and any(callees(f.node) & S for f in fs):
                    S.add(n)
                    grew = True
    common = {"get", "update", "load", "append", "extend", "pop", "copy",
              "keys", "items", "values", "read", "write", "match", "next",
              "split", "strip", "lower", "upper", "index", "push"}
    refusers -= common
    convert -= common
    seen = set()
    for fs in funs.values():
        for fi in fs:
            if fi.module.name not in READERS:
                continue
            for t in ast.walk(fi.node):
                if not isinstance(t, ast.Try) or id(t) in seen:
                    continue
                seen.add(id(t))
                body = set()
                for s in t.body:
                    body |= callees(s)
                    for x in ast.walk(s):
                        if isinstance(x, ast.Raise) and x.exc is not None:
                            body.add("raise")
                for h in t.handlers:
                    if leaves(h):
                        rep.ob(rule, fi, True, loc(fi, h), "")
                        continue
                    names = handler_names(h)
                    hit = None
                    if names & REFUSALS and body & (refusers | {"raise"}):
                        hit = "the refusal of a malformed file by %s" % (
                            sorted(body & (refusers | {"raise"}))[0])
                    elif names & CONV and body & convert and not keeps(h):
                        hit = "a failed number conversion in %s" % (
                            sorted(body & convert)[0])
                    rep.ob(rule, fi, hit is None, loc(fi, h), "" if
                           hit is None else "%s is swallowed" % hit)


def keeps(h):
    """the handler keeps the text it could not convert"""
    return any(isinstance(x, (ast.Return, ast.Assign)) and x.value is not
               None and not isinstance(x.value, ast.Constant)
               for x in ast.walk(h))


def decoding(prog, rep):
    """bytes that are no text are an error, not dropped"""
    rule = "decoding"
    for mod in (RB, MD, SP, CI, TS):
        for fi in prog.all_functions():
            if fi.module.name != mod:
                continue
            for n in ast.walk(fi.node):
                if not isinstance(n, ast.Call):
                    continue
                f = n.func
                nm = f.id if isinstance(f, ast.Name) else getattr(
                    f, "attr", "")
                if nm not in ("open", "decode"):
                    continue
                bad = [k for k in n.keywords if k.arg == "errors" and
                       isinstance(k.value, ast.Constant) and
                       k.value.value in ("ignore", "replace")]
                rep.ob(rule, fi, not bad, loc(fi, n), "" if not bad else
                       "bytes that can not be decoded are dropped")


def trailing(prog, rep):
    """everything in the file is read"""
    rule = "citi-trailing"
    fi = method(prog, rep, rule, CI, "parse_blocks")
    if fi is None:
        return
    eng, res = run(prog, fi, inline=inl, depth=6)
    ys = [e for e in eng.events if e.kind == "yield" and e.fi is fi]
    if len(ys) != 1:
        rep.ob(rule, fi, True, loc(fi), "several blocks")
        return
    y = ys[0]
    if y.loops:
        rep.ob(rule, fi, True, y.loc, "blocks are read until the end")
        return
    last = max([e.seq for e in eng.events if e.loops] or [0])
    tests = [e for e in eng.events if e.seq > last and e.kind == "call" and
             short(e.obj) in ("next", "ExpectEndOfFile", "any", "list")]
    rep.ob(rule, fi, bool(tests), y.loc, "lines after the last declared data "
           "block" + ("" if tests else " are ignored"))
