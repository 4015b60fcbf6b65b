"""No path runs into an undefined name, a call that can not be made, a spent
iterator or a StopIteration inside a generator."""
import ast
import builtins

from ..lib import loc
from ..ndnames import NAMES as NDARRAY
from ..model import (BUILTINS, ClassInfo, Ext, FuncInfo, Module, fold_py3)

RULE = (
    "For every function of the library: (names) every name that is read is a "
    "local of the function or of an enclosing one, a module level name "
    "(imports and star imports of the package followed) or a builtin; "
    "(unbound) a flow analysis of assignments finds no read of a local that "
    "no assignment can have reached, nor one that one arm of an if/else that "
    "goes on to the read leaves unassigned, unless the read is itself under "
    "a condition on the same names; (calls) every call whose callee is a "
    "function or class of the library (by name, module attribute, or self in "
    "a class where it is not overridden) fits its signature; (generator) "
    "next(x) without a default in a generator stands in a try that catches "
    "StopIteration; (iterator) a local holding zip/map/filter/a generator "
    "expression is not indexed, measured with len or consumed twice.")
MIN = 300

U, A, M = "U", "A", "M"
ONESHOT = ("zip", "map", "filter")
EATS = ("list", "tuple", "set", "sorted", "sum", "max", "min", "dict", "any",
        "all", "frozenset")


def own(node):
    """nodes of a function that are executed when it is called"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def bound_names(node):
    """local names of a function (parameters included)"""
    out, glob = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
        if x is not None:
            out.add(x.arg)
    body = [node.body] if isinstance(node, ast.Lambda) else node.body
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            for g in n.generators:
                todo.append(g.iter)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add(x.asname or x.name.split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out - glob


class Flow(object):
    """definite assignment of the locals of one function"""

    def __init__(self, fi):
        self.fi = fi
        self.bad = []
        a = fi.node.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs +
              [a.vararg, a.kwarg] if x is not None}
        self.locals = bound_names(fi.node) - ps
        self.conds = []
        self.loop = []
        self.trys = []
        self.handled = 0
        st = {v: U for v in self.locals}
        if isinstance(fi.node, ast.Lambda):
            self.expr(fi.node.body, st)
        else:
            self.block(fi.node.body, st)

    def join(self, a, b, node=None):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for v in self.locals:
            x, y = a[v], b[v]
            if x == y:
                out[v] = x
            elif isinstance(x, tuple):
                out[v] = x if not isinstance(y, tuple) or y == x else (M,)
            elif isinstance(y, tuple):
                out[v] = y
            else:
                out[v] = (M, node) if node is not None else (M,)
        return out

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            for t in self.trys:
                t.append(dict(st))
            st = self.stmt(s, st)
        for t in self.trys:
            if st is not None:
                t.append(dict(st))
        return st

    def read(self, n, st):
        v = n.id
        if v not in self.locals:
            return
        s = st[v]
        if s == U:
            self.bad.append((n, "read before anything is assigned to it"))
        elif isinstance(s, tuple) and len(s) == 2 and not self.handled:
            names = {x.id for x in ast.walk(s[1].test)
                     if isinstance(x, ast.Name)} | {
                x.attr for x in ast.walk(s[1].test)
                if isinstance(x, ast.Attribute)}
            for c in self.conds:
                if c in self.inside(s[1]):
                    continue
                here = {x.id for x in ast.walk(c) if isinstance(x, ast.Name)} \
                    | {x.attr for x in ast.walk(c)
                       if isinstance(x, ast.Attribute)}
                if here & names or not here:
                    return
            self.bad.append((n, "not assigned when the other arm of the if "
                             "in line %d is taken" % s[1].lineno))

    def inside(self, node):
        return [x for x in ast.walk(node) if isinstance(x, ast.expr)]

    def store(self, t, st):
        if isinstance(t, ast.Name):
            if t.id in st:
                st[t.id] = A
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.store(e, st)
        elif isinstance(t, ast.Starred):
            self.store(t.value, st)
        else:
            self.expr(t, st)

    def expr(self, e, st):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(e, st)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults:
                self.expr(d, st)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            sub = dict(st)
            for i, g in enumerate(e.generators):
                self.expr(g.iter, sub)
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name) and x.id in sub:
                        sub[x.id] = A
                for c in g.ifs:
                    self.expr(c, sub)
            if isinstance(e, ast.DictComp):
                self.expr(e.key, sub)
                self.expr(e.value, sub)
            else:
                self.expr(e.elt, sub)
            return
        if isinstance(e, ast.BoolOp):
            n = 0
            for v in e.values:
                self.expr(v, st)
                self.conds.append(v)
                n += 1
            del self.conds[-n:]
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st)
            self.conds.append(e.test)
            self.expr(e.body, st)
            self.expr(e.orelse, st)
            self.conds.pop()
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st)
            self.store(e.target, st)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, st)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, st)

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(d, st)
            if not isinstance(s, ast.ClassDef):
                for d in s.args.defaults + s.args.kw_defaults:
                    self.expr(d, st)
            if s.name in st:
                st[s.name] = A
            return st
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            for t in s.targets:
                self.store(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.read(s.target, st)
            else:
                self.expr(s.target, st)
            self.expr(s.value, st)
            self.store(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, st)
            if s.value is not None:
                self.store(s.target, st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st)
            return None
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.read(ast.copy_location(
                        ast.Name(t.id, ast.Load()), t), st)
                    if t.id in st:
                        st[t.id] = U
                else:
                    self.expr(t, st)
            return st
        if isinstance(s, ast.If):
            f = fold_py3(s.test)
            self.expr(s.test, st)
            self.conds.append(s.test)
            a = self.block(s.body, dict(st)) if f is not False else None
            b = self.block(s.orelse, dict(st)) if f is not True else None
            self.conds.pop()
            return self.join(a, b, s if s.orelse else None)
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.expr(s.iter, st)
            else:
                self.expr(s.test, st)
            brk = []
            self.loop.append(brk)
            self.conds.append(s.iter if isinstance(s, ast.For) else s.test)
            first = dict(st)
            if isinstance(s, ast.For):
                self.store(s.target, first)
            # one pass finds reads that precede every assignment on the
            # first round; the join with the end of the body is looser
            end = self.block(s.body, first)
            self.conds.pop()
            self.loop.pop()
            forever = isinstance(s, ast.While) and fold_py3(s.test) is True
            out = None if forever else self.join(dict(st), end)
            if out is not None and s.orelse:
                out = self.block(s.orelse, out)
            for b in brk:
                out = self.join(out, b)
            return out
        if isinstance(s, ast.Break):
            if self.loop:
                self.loop[-1].append(dict(st))
            return None
        if isinstance(s, ast.Continue):
            return None
        if isinstance(s, ast.Try):
            snaps = [dict(st)]
            self.trys.append(snaps)
            body = self.block(s.body, dict(st))
            self.trys.pop()
            if body is not None and s.orelse:
                body = self.block(s.orelse, body)
            ent = None
            for x in snaps:
                ent = self.join(ent, x)
            outs = [body]
            for h in s.handlers:
                e = dict(ent)
                if h.name in e:
                    e[h.name] = A
                self.handled += 1
                outs.append(self.block(h.body, e))
                self.handled -= 1
            out = None
            for o in outs:
                out = self.join(out, o)
            if s.finalbody:
                fin = self.block(s.finalbody, dict(out or ent))
                if fin is None:
                    return None
                out = fin if out is not None else None
            return out
        if isinstance(s, (ast.With,)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, st)
            # a context manager may swallow the exception
            return self.block(s.body, st)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for x in s.names:
                n = x.asname or x.name.split(".")[0]
                if n in st:
                    st[n] = A
            return st
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        return st


def stops(s):
    """nothing after the statement is run"""
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return bool(s.body and s.orelse) and stops(s.body[-1]) and \
            stops(s.orelse[-1])
    return False


def dead(fi):
    """statements behind a return, raise, continue or break"""
    out = set()
    for n in ast.walk(fi.node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            cut = False
            for s in b:
                if cut:
                    out.add(id(s))
                cut = cut or stops(s)
    return out


def live(fi):
    """nodes of the function outside code for other interpreters"""
    body = fi.node.body if isinstance(fi.node.body, list) else [fi.node.body]
    todo = list(body) + list(fi.node.args.defaults)
    gone = getattr(fi, "_dead", None)
    if gone is None:
        gone = fi._dead = dead(fi)
    while todo:
        n = todo.pop()
        if id(n) in gone:
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            if not isinstance(n, ast.Lambda):
                todo.extend(n.decorator_list)
            todo.extend(n.args.defaults)
            continue
        if isinstance(n, ast.ClassDef):
            todo.extend(n.bases)
            continue
        if isinstance(n, ast.If):
            f = fold_py3(n.test)
            yield n
            todo.append(n.test)
            if f is not False:
                todo.extend(n.body)
            if f is not True:
                todo.extend(n.orelse)
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def comp_names(fi):
    out = set()
    for n in live(fi):
        if isinstance(n, ast.comprehension):
            out |= {x.id for x in ast.walk(n.target)
                    if isinstance(x, ast.Name)}
    return out


def module_writes(m):
    """names that code puts in the module's namespace in other ways"""
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ("globals", "exec", "vars", "locals"):
            return None
    todo = list(m.tree.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            if not isinstance(x, ast.Lambda):
                out.add(x.name)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        todo.extend(ast.iter_child_nodes(x))
    return out


# -- attributes ---------------------------------------------------------------

def family(prog, c):
    return [k for k in prog.all_classes()
            if k is c or k.subclass_of(c) or c.subclass_of(k)]


def made_here(prog, fi):
    """locals that are only ever bound to a new object of one class"""
    out, lost = {}, set()
    up = fi.parent
    while up is not None:
        lost |= bound_names(up.node) | comp_names(up)
        up = up.parent
    owner = fi.cls if "classmethod" in [
        getattr(d, "id", None) for d in fi.decorators] else None
    stores = {}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            lost.update(n.names)
        elif isinstance(n, ast.arg):
            lost.add(n.arg)
    for n in ast.walk(fi.node):
        if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and
                isinstance(n.targets[0], ast.Name) and
                isinstance(n.value, ast.Call)):
            continue
        name, f = n.targets[0].id, n.value.func
        if stores.get(name) != 1 or name in lost:
            continue
        if isinstance(f, ast.Name) and owner is not None and \
                fi.positional[:1] == [f.id] and f.id not in stores:
            out[name] = owner
            continue
        if root(f) is None or root(f) in stores or root(f) in lost:
            continue
        c = prog.resolve_expr(fi.module, f)
        if isinstance(c, ClassInfo):
            out[name] = c
    return out


def attributes(prog, rep):
    """self.x is something that the class, a base or a subclass sets"""
    stored, own_, mine = {}, {}, set()
    for c in prog.all_classes():
        for t in c.methods.values():
            for n in ast.walk(getattr(t, "node", ast.Pass())):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store) and isinstance(
                        n.value, ast.Name) and n.value.id == "self" and \
                        t.positional[:1] == ["self"]:
                    own_.setdefault(c, set()).add(n.attr)
                    mine.add(id(n))
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, (ast.Store, ast.Del)) and id(n) not in mine:
                stored.setdefault(n.attr, 0)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == "setattr" and len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant):
                    stored.setdefault(n.args[1].value, 0)
    def known(c):
        """attributes objects of the class may have; None: any"""
        fam = family(prog, c)
        bases = set()
        for k in fam:
            bases |= set(k.ext_bases())
        have = set(dir(object)) | {"__dict__", "__name__"}
        loose = False
        for b in bases:
            if b == "numpy.ndarray":
                have |= set(NDARRAY)
            elif b.startswith("builtins.") and isinstance(
                    getattr(builtins, b[9:], None), type):
                have |= set(dir(getattr(builtins, b[9:])))
            elif b == "collections.OrderedDict":
                have |= set(dir(dict)) | {"move_to_end"}
            else:
                loose = True
        for k in fam:
            have |= set(k.methods) | set(k.attrs) | own_.get(k, set())
            if {"__getattr__", "__getattribute__", "__slots__"} & (
                    set(k.methods) | set(k.attrs)):
                loose = True
            for d in k.node.decorator_list:
                loose = True
        return None if loose else have

    memo = {}
    for c in prog.all_classes():
        have = memo[c] = known(c)
        if have is None:
            continue
        for t in c.methods.values():
            if not isinstance(t, FuncInfo) or isinstance(t.node, ast.Lambda) \
                    or not t.positional or t.positional[0] != "self":
                continue
            bad = []
            for n in live(t):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load) and isinstance(n.value, ast.Name) \
                        and n.value.id == "self" and n.attr not in have and \
                        n.attr not in stored:
                    if not tolerant(t, n, "AttributeError"):
                        bad.append(n)
            for n in bad[:3]:
                rep.bad("attributes", "%s self.%s" % (t.fullname, n.attr),
                        loc(t, n), "nothing sets the attribute %s" % n.attr)
            if not bad:
                rep.holds("attributes", t, loc(t))
    for fi in prog.all_functions():
        if isinstance(fi.node, ast.Lambda):
            continue
        for name, c in sorted(made_here(prog, fi).items()):
            have = memo.get(c)
            if have is None or "__new__" in c.methods:
                continue
            bad = []
            asked = {n.value for n in ast.walk(fi.node)
                     if isinstance(n, ast.Constant)}
            for n in live(fi):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load) and isinstance(n.value, ast.Name) \
                        and n.value.id == name and n.attr not in have and \
                        n.attr not in stored and n.attr not in asked and \
                        not tolerant(fi, n, "AttributeError"):
                    bad.append(n)
            for n in bad[:3]:
                rep.bad("attributes", "%s %s.%s" % (
                    fi.fullname, c.name, n.attr), loc(fi, n),
                    "nothing sets the attribute %s of a %s" % (
                        n.attr, c.name))
            if not bad:
                rep.holds("attributes", "%s %s" % (fi.fullname, name),
                          loc(fi))
    for fi in prog.all_functions():
        k, bad = 0, []
        loc_ = set()
        f = fi
        while f is not None:
            loc_ |= bound_names(f.node) | comp_names(f)
            f = f.parent
        for n in live(fi):
            if not isinstance(n, ast.Attribute) or not isinstance(
                    n.ctx, ast.Load) or root(n) is None or root(n) in loc_:
                continue
            e = prog.resolve_expr(fi.module, n.value)
            if not isinstance(e, Module):
                continue
            k += 1
            if prog.lookup(e, n.attr) is None and not prog.star_external(e):
                w = module_writes(e)
                if w is None or n.attr in w or n.attr in (
                        "__file__", "__name__", "__doc__", "__dict__",
                        "__all__", "__path__") or \
                        prog.modules.get(e.name + "." + n.attr) is not None:
                    continue
                if n.attr in stored or tolerant(fi, n, "AttributeError"):
                    continue
                bad.append(n)
        for n in bad[:3]:
            rep.bad("attributes", "%s %s" % (fi.fullname, ast.unparse(n)),
                    loc(fi, n), "the module has no such name")
        if k and not bad:
            rep.holds("attributes", "%s modules" % fi.fullname, loc(fi))


def names(prog, rep):
    extra = {}
    for fi in prog.all_functions():
        m = fi.module
        if m.name not in extra:
            extra[m.name] = module_writes(m)
        if extra[m.name] is None or prog.star_external(m):
            continue
        scope = set()
        f = fi
        while f is not None:
            scope |= bound_names(f.node) | comp_names(f)
            f = f.parent
        rep.analysed(fi)
        bad = []
        for n in live(fi):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                v = n.id
                if v in scope or v in BUILTINS or v in extra[m.name] or \
                        v in m.syms or v in ("__file__", "__name__",
                                             "__doc__", "__class__",
                                             "__path__", "__package__"):
                    continue
                if prog.lookup(m, v) is not None:
                    continue
                if in_class_body(fi, n):
                    continue
                if tolerant(fi, n, "NameError"):
                    continue
                bad.append((v, n))
        for v, n in bad[:3]:
            rep.bad("names", "%s %s" % (fi.fullname, v), loc(fi, n),
                    "nothing named %s is defined here" % v)
        if not bad:
            rep.holds("names", fi, loc(fi))


def in_class_body(fi, n):
    for c in ast.walk(fi.node):
        if isinstance(c, ast.ClassDef) and any(x is n for x in ast.walk(c)):
            return True
    return False


def tolerant(fi, n, exc):
    """n stands in a try whose handlers catch exc"""
    for t in ast.walk(fi.node):
        if isinstance(t, ast.Try) and any(
                x is n for s in t.body for x in ast.walk(s)):
            for h in t.handlers:
                if h.type is None:
                    return True
                ns = {x.id if isinstance(x, ast.Name) else x.attr
                      for x in ast.walk(h.type)
                      if isinstance(x, (ast.Name, ast.Attribute))}
                if ns & {exc, "Exception", "BaseException"}:
                    return True
    return False


def unbound(prog, rep):
    for fi in prog.all_functions():
        if isinstance(fi.node, ast.Lambda):
            continue
        fl = Flow(fi)
        bad = [(n, w) for n, w in fl.bad
               if not tolerant(fi, n, "UnboundLocalError") and
               not tolerant(fi, n, "NameError")]
        for n, w in bad[:3]:
            rep.bad("unbound", "%s %s" % (fi.fullname, n.id), loc(fi, n),
                    "%s is %s" % (n.id, w))
        if not bad:
            rep.holds("unbound", fi, loc(fi))


# -- calls -------------------------------------------------------------------

def signature(fi, bound):
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    ndef = len(a.defaults)
    if bound:
        if not pos:
            return None
        pos = pos[1:]
    need = pos[:len(pos) - ndef] if ndef else pos
    kwonly = [x.arg for x in a.kwonlyargs]
    kwneed = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, need, kwonly, kwneed, a.vararg is not None, \
        a.kwarg is not None


def mismatch(call, sig):
    pos, need, kwonly, kwneed, va, kw = sig
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(pos) and not va:
        return "%d positional arguments for %d parameters" % (n, len(pos))
    given = [k.arg for k in call.keywords if k.arg is not None]
    for g in given:
        if g not in pos and g not in kwonly and not kw:
            return "no parameter %s" % g
        if not star and g in pos[:n]:
            return "two values for %s" % g
    if not star and not dstar:
        for p in need[n:]:
            if p not in given:
                return "nothing for %s" % p
    if not dstar:
        for p in kwneed:
            if p not in given:
                return "nothing for %s" % p
    return None


def plain(fi, ok=()):
    return all(isinstance(d, ast.Name) and d.id in ok for d in fi.decorators)


def local_aliases(fi):
    """locals bound once, to a name"""
    out = {}
    for n in live(fi):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                isinstance(n.targets[0], ast.Name):
            out.setdefault(n.targets[0].id, []).append(n.value)
    return out


def calls(prog, rep):
    over = {}
    for c in prog.all_classes():
        for n in c.methods:
            over.setdefault(n, []).append(c)
    for fi in prog.all_functions():
        loc_ = set()
        f = fi
        while f is not None:
            loc_ |= bound_names(f.node) | comp_names(f)
            f = f.parent
        inner = {n.name: n for n in ast.walk(fi.node)
                 if isinstance(n, ast.FunctionDef) and n is not fi.node}
        k = 0
        for n in live(fi):
            if not isinstance(n, ast.Call):
                continue
            sig, what = None, None
            if isinstance(n.func, ast.Name):
                if n.func.id in loc_:
                    continue
                e = prog.lookup(fi.module, n.func.id)
                sig, what = callee(prog, e), n.func.id
            elif isinstance(n.func, ast.Attribute):
                b = n.func.value
                if isinstance(b, ast.Name) and b.id == "self" and \
                        fi.cls is not None and fi.positional[:1] == ["self"]:
                    c = fi.cls
                    if any(x is not c and x.subclass_of(c)
                           for x in over.get(n.func.attr, ())):
                        continue
                    t = c.find(n.func.attr)
                    if isinstance(t, FuncInfo) and not prog_assigned(
                            prog, c, n.func.attr):
                        if plain(t):
                            sig = signature(t, True)
                        elif plain(t, ("staticmethod",)):
                            sig = signature(t, False)
                        elif plain(t, ("classmethod",)):
                            sig = signature(t, True)
                    what = "self." + n.func.attr
                elif root(b) is not None and root(b) not in loc_:
                    e = prog.resolve_expr(fi.module, b)
                    if isinstance(e, Module):
                        sig = callee(prog, prog.lookup(e, n.func.attr))
                        what = ast.unparse(n.func)
                        if sig is None and prog.lookup(e, n.func.attr) is \
                                None and not prog.star_external(e) and \
                                n.func.attr not in (module_writes(e) or
                                                    (n.func.attr,)):
                            rep.bad("calls", "%s %s" % (fi.fullname, what),
                                    loc(fi, n), "there is no %s" % what)
                            continue
                    elif isinstance(e, ClassInfo):
                        t = e.find(n.func.attr)
                        if isinstance(t, FuncInfo) and t.decorators and \
                                not prog_assigned(prog, e, n.func.attr):
                            if plain(t, ("classmethod",)):
                                sig = signature(t, True)
                            elif plain(t, ("staticmethod",)):
                                sig = signature(t, False)
                        what = ast.unparse(n.func)
            if sig is None:
                continue
            k += 1
            w = mismatch(n, sig)
            if w and not tolerant(fi, n, "TypeError"):
                rep.bad("calls", "%s %s" % (fi.fullname, what), loc(fi, n),
                        "%s is called with %s" % (what, w))
        if k:
            rep.holds("calls", fi, loc(fi), "%d calls" % k)


def root(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def prog_assigned(prog, c, name):
    for k in prog.all_classes():
        if k.subclass_of(c) or c.subclass_of(k):
            if name in k.attrs:
                return True
            for m in k.methods.values():
                for n in ast.walk(getattr(m, "node", ast.Pass())):
                    if isinstance(n, ast.Attribute) and n.attr == name and \
                            isinstance(n.ctx, ast.Store):
                        return True
    return False


def callee(prog, e):
    if isinstance(e, FuncInfo) and plain(e):
        # a name bound more than once in the module is not known
        k = 0
        for s in e.module.tree.body:
            for x in ast.walk(s):
                if isinstance(x, ast.FunctionDef) and x.name == e.name and \
                        e.cls is None and e.parent is None and \
                        getattr(x, "_fi", e).cls is None and \
                        getattr(x, "_fi", e).parent is None:
                    k += 1
                if isinstance(x, ast.Name) and x.id == e.name and \
                        isinstance(x.ctx, ast.Store) and s is x:
                    k += 1
        return signature(e, False) if k == 1 else None
    if isinstance(e, ClassInfo):
        if e.ext_bases() - {"builtins.object"} if isinstance(
                e.ext_bases(), set) else [
                x for x in e.ext_bases() if x != "builtins.object"]:
            return None
        if e.find("__new__") is not None:
            return None
        i = e.find("__init__")
        if isinstance(i, FuncInfo) and plain(i):
            return signature(i, True)
    return None


# -- generators and iterators -------------------------------------------------

def generators(prog, rep):
    for fi in prog.all_functions():
        if isinstance(fi.node, ast.Lambda) or not fi.is_generator():
            continue
        k = 0
        for n in live(fi):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == "next" and len(n.args) == 1 and \
                    not n.keywords:
                k += 1
                it = n.args[0]
                if endless(fi, it):
                    continue
                ok = tolerant(fi, n, "StopIteration")
                rep.ob("generator", "%s next(%s)" % (
                    fi.fullname, ast.unparse(it)), ok, loc(fi, n), "" if ok
                    else "StopIteration in a generator is a RuntimeError")
            if isinstance(n, ast.Raise) and n.exc is not None and \
                    "StopIteration" in {x.id for x in ast.walk(n.exc)
                                        if isinstance(x, ast.Name)} and \
                    not tolerant(fi, n, "StopIteration"):
                rep.bad("generator", "%s raise" % fi.fullname, loc(fi, n),
                        "raise StopIteration in a generator is a "
                        "RuntimeError")
        rep.holds("generator", fi, loc(fi), "%d next" % k)


def endless(fi, it):
    if not isinstance(it, ast.Name):
        return False
    vs = local_aliases(fi).get(it.id, [])
    return bool(vs) and all(isinstance(v, ast.Call) and
                            ast.unparse(v.func).split(".")[-1] in (
                                "count", "cycle", "repeat") for v in vs)


def iterators(prog, rep):
    for fi in prog.all_functions():
        if isinstance(fi.node, ast.Lambda):
            continue
        al = local_aliases(fi)
        stores = {}
        for n in live(fi):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores[n.id] = stores.get(n.id, 0) + 1
        found = False
        for v, vals in al.items():
            if stores.get(v) != 1 or len(vals) != 1:
                continue
            if not oneshot(prog, fi, vals[0]):
                continue
            found = True
            why = spent(fi, v, vals[0])
            rep.ob("iterator", "%s %s" % (fi.fullname, v), not why,
                   loc(fi, vals[0]), why or "")
        for n in live(fi):
            # map(...)[2:], len(zip(...))
            if isinstance(n, ast.Subscript) and oneshot(prog, fi, n.value):
                rep.bad("iterator", "%s subscript" % fi.fullname,
                        loc(fi, n), "an iterator is indexed")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == "len" and n.args and \
                    oneshot(prog, fi, n.args[0]):
                rep.bad("iterator", "%s len" % fi.fullname, loc(fi, n),
                        "len of an iterator")


def oneshot(prog, fi, e):
    if isinstance(e, ast.GeneratorExp):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id in ONESHOT:
        r = prog.lookup(fi.module, e.func.id)
        return r is None or isinstance(r, Ext) and r.name in (
            "builtins." + e.func.id, "itertools.i" + e.func.id)
    return False


def spent(fi, v, node):
    """uses of the iterator v that can not work"""
    eats = []

    def look(n, loops, path):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) \
                and n.value.id == v and isinstance(n.ctx, ast.Load):
            eats.append(("index", n, loops, path))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                any(isinstance(a, ast.Name) and a.id == v for a in n.args):
            if n.func.id == "len":
                eats.append(("index", n, loops, path))
            elif n.func.id in EATS:
                eats.append(("eat", n, loops, path))
        if isinstance(n, ast.Call) and any(
                isinstance(a, ast.Starred) and isinstance(a.value, ast.Name)
                and a.value.id == v for a in n.args):
            eats.append(("eat", n, loops, path))
        if isinstance(n, ast.comprehension) and \
                isinstance(n.iter, ast.Name) and n.iter.id == v:
            eats.append(("eat", n.iter, loops, path))
        if isinstance(n, ast.For):
            if isinstance(n.iter, ast.Name) and n.iter.id == v:
                full = not any(isinstance(x, (ast.Break, ast.Return))
                               for s in n.body for x in ast.walk(s))
                eats.append(("eat" if full else "part", n, loops, path))
            look(n.iter, loops, path)
            for s in n.body:
                look(s, loops + (n,), path)
            for s in n.orelse:
                look(s, loops, path)
            return
        if isinstance(n, ast.While):
            for s in n.body:
                look(s, loops + (n,), path)
            return
        if isinstance(n, ast.If):
            look(n.test, loops, path)
            for s in n.body:
                look(s, loops, path + ((n, True),))
            for s in n.orelse:
                look(s, loops, path + ((n, False),))
            return
        if isinstance(n, ast.Assign) and n.value is node:
            eats.append(("def", n, loops, path))
        for c in ast.iter_child_nodes(n):
            look(c, loops, path)
    for s in fi.node.body:
        look(s, (), ())
    d = [x for x in eats if x[0] == "def"]
    if len(d) != 1:
        return None
    for k, n, l, p in eats:
        if k == "index":
            return "an iterator is indexed or measured"
    full = [x for x in eats if x[0] == "eat"]
    for k, n, l, p in full:
        if len(l) > len(d[0][2]):
            return "consumed in line %d once per round of a loop, but made " \
                "once before it" % n.lineno
    for i, x in enumerate(full):
        for y in full[i + 1:]:
            opp = any((a, not t) in y[3] for a, t in x[3])
            if not opp and set(x[3]) <= set(y[3]) and not ends(x[3]):
                return "consumed in line %d and again in line %d" % (
                    x[1].lineno, y[1].lineno)
    return None


def ends(path):
    for n, t in path:
        b = n.body if t else n.orelse
        if b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue,
                                    ast.Break)):
            return True
    return False


def check(prog, rep, tier):
    rep.parts((names, (prog, rep)), (unbound, (prog, rep)),
              (calls, (prog, rep)), (generators, (prog, rep)),
              (iterators, (prog, rep)), (attributes, (prog, rep)))
