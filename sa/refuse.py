"""Refusals: for a situation described by the truth of the conditions a
function tests, some raise must be reached.

``refusal`` looks at every raise event of an engine run.  Under the facts of
the situation a raise is

* contradicted, when one of its guards is false in the situation,
* reached, when every guard is decided and at least one of them is a test of
  the situation itself (the key),
* unrelated, when none of its guards is a key and all the others are
  understood,
* in doubt otherwise.

Reached: the situation is refused.  None reached and none in doubt: it is
accepted silently, reported.  Otherwise nothing is said."""
import ast

from .engine import cval, is_const, show
from .lib import decide, fname, short


def exc_names(e):
    """names of the class raised and of its bases, or None"""
    v = e.val
    if v is None:
        return None
    f = v.args[0] if v.op == "call" else v
    if f.op != "ent":
        return None
    x = f.args[0]
    if hasattr(x, "mro"):
        out = set()
        for c in x.mro():
            out.add(c.name)
            for b in c.node.bases:
                out.add(getattr(b, "id", getattr(b, "attr", "")))
        return out | _base(out)
    n = fname(f).rsplit(".", 1)[-1]
    return {n} | _base({n})


BASES = {"ParseError": {"Exception"}}


def _base(names):
    import builtins
    out = set()
    for n in names:
        c = getattr(builtins, n, None)
        if isinstance(c, type):
            out |= {b.__name__ for b in c.__mro__}
    return out | {"Exception", "BaseException"}


def leaves(h):
    """the handler always raises"""
    return always_raises(h.body)


def always_raises(body):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(
                s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, ast.With) and always_raises(s.body):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
    return False


def handler_names(h):
    if h.type is None:
        return {"BaseException"}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {getattr(t, "id", getattr(t, "attr", "?")) for t in ts}


def swallowed(e):
    """the handler inside the analysed function that stops this raise"""
    names = exc_names(e)
    if names is None:
        names = {"Exception", "BaseException"}
    if "IOError" in names or "OSError" in names:
        names = names | {"IOError", "OSError", "EnvironmentError"}
    for s in reversed(e.trys):
        for h in s.handlers:
            if handler_names(h) & names:
                if not leaves(h):
                    return h
                break
    return None


def raises(eng):
    return [e for e in eng.events if e.kind == "raise"]


def refusal(rep, rule, fi, eng, facts, key, what, vocab=None, where=None,
            want=None):
    """see the module text; want: predicate a raise must satisfy"""
    vocab = vocab or (lambda c: False)
    doubts, hits, off = [], [], []
    for e in raises(eng):
        if want is not None and not want(e):
            continue
        rest, keyed, dead = [], False, False
        for c, pol in e.guards:
            v = decide(c, facts)
            if v is None:
                rest.append((c, pol))
            elif v is not pol:
                dead = True
                break
            keyed = keyed or key(c)
        if dead:
            continue
        if keyed and not rest:
            h = swallowed(e)
            if h is None:
                hits.append(e)
            else:
                off.append((e, h))
        elif not keyed and all(vocab(c) for c, p in rest):
            continue
        else:
            doubts.append((e, rest))
    if hits:
        rep.ob(rule, fi, True, hits[0].loc, what)
    elif doubts:
        rep.unsure(rule, fi, doubts[0][0].loc, "%s: %s" % (
            what, [show(c)[:80] for c, p in doubts[0][1]]))
    elif off:
        rep.ob(rule, fi, False, "%s:%d (%s)" % (
            fi.module.rel, off[0][1].lineno, fi.qual),
            "%s: the error raised at %s is swallowed here" % (
                what, off[0][0].loc))
    else:
        rep.ob(rule, fi, False, where or "%s:%d (%s)" % (
            fi.module.rel, fi.node.lineno, fi.qual),
            "%s: no error is raised" % what)
    return bool(hits)


# tests on tokens and lines ---------------------------------------------------

def consts(eng, t):
    """the constants a literal list, tuple or set holds, or None"""
    if t.op in ("tuple",):
        xs = t.args
    elif t.op == "obj":
        cs = eng.contents(t) if hasattr(eng, "contents") else \
            eng.contents_log.get(t, ())
        if any(k[0] not in ("lit", "app") or k[3] for k in cs):
            return None
        xs = [k[2] for k in cs]
    elif is_const(t) and isinstance(cval(t), (tuple, list, set, frozenset)):
        return set(cval(t))
    else:
        return None
    if not all(is_const(x) for x in xs):
        return None
    return {cval(x) for x in xs}


def member(eng, c):
    """(subject, constants) of an equality or membership test"""
    if c.op != "cmp":
        return None
    op, a, b = c.args
    if op == "Eq":
        if is_const(b):
            return a, {cval(b)}
        if is_const(a):
            return b, {cval(a)}
    if op == "In":
        s = consts(eng, b)
        if s is not None:
            return a, s
    return None


def is_tag(t):
    """the tag of a token: x.tag, x[0]"""
    if t.op == "attr" and t.args[1] == "tag":
        return True
    return t.op == "sub" and is_const(t.args[1]) and cval(t.args[1]) == 0


def prefix(c):
    """(line, prefix) of a test on how a line starts"""
    if c.op == "call" and c.args[0].op == "attr" and \
            c.args[0].args[1] == "startswith" and c.args[1] and \
            is_const(c.args[1][0]):
        return c.args[0].args[0], cval(c.args[1][0])
    if c.op == "cmp" and c.args[0] == "Eq":
        for x, y in (c.args[1:], c.args[:0:-1]):
            if x.op == "sub" and is_const(y) and isinstance(cval(y), str):
                i = x.args[1]
                if is_const(i) and cval(i) == 0 and len(cval(y)) == 1:
                    return x.args[0], cval(y)
                if i.op == "slice":
                    lo, hi = i.args[0], i.args[1]
                    if is_const(lo) and cval(lo) in (None, 0) and \
                            is_const(hi) and cval(hi) == len(cval(y)):
                        return x.args[0], cval(y)
    return None


def is_match(c):
    return c.op == "call" and short(c.args[0]) in (
        "match", "fullmatch", "search")
