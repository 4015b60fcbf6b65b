#!/usr/bin/env python3
"""Checker self-test: behaviour preserving rewrites of the whole of hftools.

Every transform below keeps what the code does; each is applied to every place
it fits in a scratch copy of /repo, and every check has to stay quiet on it.

    python3 selftest/refactor.py [-t transform,...] [-p property,...] [--keep]
    python3 selftest/refactor.py --bisect transform property
"""
import ast
import warnings
import builtins
import copy
import os
import shutil
import subprocess
import sys
import tempfile
import tokenize
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SKIP = ("tests", "slask", "_external", "testing")
T = {}
warnings.simplefilter("ignore")


def transform(fn):
    T[fn.__name__] = fn
    return fn


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def store(i):
    return ast.Name(id=i, ctx=ast.Store())


def blocks(node):
    """(owner, field, list) of every statement list below node."""
    for n in ast.walk(node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def bound_otherwise(f):
    """names that definitions and imports inside f bind"""
    out = set()
    for x in ast.walk(f):
        if isinstance(x, ast.FunctionDef) and x is not f:
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name).split(".")[0] for a in x.names)
    return out


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def rewrite(tree, fn):
    """fn(stmt, function) -> None | list of statements; only in functions."""
    def block(b, f):
        out = []
        for s in b:
            if isinstance(s, ast.FunctionDef):
                s.body = block(s.body, s)
                out.append(s)
                continue
            for fld in ("body", "orelse", "finalbody"):
                x = getattr(s, fld, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                    setattr(s, fld, block(x, f))
            for h in getattr(s, "handlers", []):
                h.body = block(h.body, f)
            r = fn(s, f) if f is not None else None
            out.extend(r if r is not None else [s])
        return out
    tree.body = block(tree.body, None)


class Fresh(object):
    def __init__(self, pre="tmp"):
        self.n, self.pre = 0, pre

    def __call__(self):
        self.n += 1
        return "%s_%d" % (self.pre, self.n)


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def pure_atom(e):
    return isinstance(e, (ast.Name, ast.Constant))


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + \
        [x.arg for x in (a.vararg, a.kwarg) if x]


@transform
def noop_statement(tree):
    def ins(b):
        i = 1 if b and isinstance(b[0], ast.Expr) and \
            isinstance(b[0].value, ast.Constant) else 0
        b.insert(i, ast.parse("pass").body[0])
        b.insert(i, ast.parse("_unused = 0").body[0])
    for f in functions(tree):
        ins(f.body)


@transform
def docstrings(tree):
    for f in functions(tree):
        if not (isinstance(f.body[0], ast.Expr) and
                isinstance(f.body[0].value, ast.Constant)):
            f.body.insert(0, ast.Expr(ast.Constant("Says what it does.")))


@transform
def return_temp(tree):
    def fn(s, f):
        if isinstance(s, ast.Return) and s.value is not None and \
                not isinstance(s.value, (ast.Name, ast.Constant)):
            return [ast.Assign([store("result_")], s.value),
                    ast.Return(name("result_"))]
    rewrite(tree, fn)


@transform
def invert_if(tree):
    def fn(s, f):
        if isinstance(s, ast.If) and s.orelse:
            if isinstance(s.test, ast.UnaryOp) and \
                    isinstance(s.test.op, ast.Not):
                t = s.test.operand
            else:
                t = ast.UnaryOp(ast.Not(), s.test)
            return [ast.If(t, s.orelse, s.body)]
    rewrite(tree, fn)


@transform
def invert_ifexp(tree):
    class V(ast.NodeTransformer):
        def visit_IfExp(self, n):
            self.generic_visit(n)
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    V().visit(tree)


@transform
def ifexp_to_if(tree):
    def fn(s, f):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Name) and \
                isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test,
                           [ast.Assign(copy.deepcopy(s.targets), v.body)],
                           [ast.Assign(copy.deepcopy(s.targets), v.orelse)])]
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Return(v.body)], []),
                    ast.Return(v.orelse)]
    rewrite(tree, fn)


@transform
def if_to_ifexp(tree):
    def fn(s, f):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and \
                    a.value is not None and b.value is not None:
                return [ast.Return(ast.IfExp(s.test, a.value, b.value))]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and \
                    ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and \
                    isinstance(a.targets[0], ast.Name):
                return [ast.Assign(a.targets,
                                   ast.IfExp(s.test, a.value, b.value))]
    rewrite(tree, fn)


@transform
def early_return(tree):
    """if c: ...return  else: X   ->   if c: ...return ; X"""
    def ends(b):
        return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue,
                                  ast.Break))

    def fn(s, f):
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            rest = s.orelse
            return [ast.If(s.test, s.body, [])] + rest
    rewrite(tree, fn)


@transform
def else_after_return(tree):
    """if c: return a ; X   ->   if c: return a  else: X"""
    for f in functions(tree):
        b = f.body
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and \
                    isinstance(s.body[-1], (ast.Return, ast.Raise)) and \
                    b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


@transform
def guard_clause(tree):
    for f in functions(tree):
        s = f.body[-1]
        if isinstance(s, ast.If) and not s.orelse and \
                not has(f, ast.Yield, ast.YieldFrom):
            f.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test),
                                  [ast.Return(ast.Constant(None))], [])] + \
                s.body
    for n in ast.walk(tree):
        if isinstance(n, (ast.For, ast.While)) and len(n.body) and \
                isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            s = n.body[-1]
            n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test),
                                  [ast.Continue()], [])] + s.body


@transform
def split_and(tree):
    def fn(s, f):
        if isinstance(s, ast.If) and not s.orelse and \
                isinstance(s.test, ast.BoolOp) and \
                isinstance(s.test.op, ast.And):
            vs = s.test.values
            rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
            return [ast.If(vs[0], [ast.If(rest, s.body, [])], [])]
    rewrite(tree, fn)


@transform
def condition_temp(tree):
    """the test of an if moved to a variable of its own"""
    fresh = Fresh("cond")

    def fn(s, f):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            v = fresh()
            return [ast.Assign([store(v)], s.test),
                    ast.If(name(v), s.body, s.orelse)]
    # elif chains: the nested If gets its temp inside the else block
    rewrite(tree, fn)


@transform
def demorgan(tree):
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
                    op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
            return n
    V().visit(tree)


@transform
def not_in(tree):
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1:
                if isinstance(n.ops[0], ast.NotIn):
                    return ast.UnaryOp(ast.Not(), ast.Compare(
                        n.left, [ast.In()], n.comparators))
                if isinstance(n.ops[0], ast.IsNot):
                    return ast.UnaryOp(ast.Not(), ast.Compare(
                        n.left, [ast.Is()], n.comparators))
            return n
    V().visit(tree)


@transform
def flip_compare(tree):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def num(e):
        return isinstance(e, ast.Constant) or (
            isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and
            e.func.id == "len")

    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in M and \
                    (num(n.comparators[0]) or num(n.left)):
                return ast.Compare(n.comparators[0], [M[type(n.ops[0])]()],
                                   [n.left])
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and \
                    isinstance(n.comparators[0], ast.Constant):
                return ast.Compare(n.comparators[0], [ast.Eq()], [n.left])
            return n
    V().visit(tree)


@transform
def arg_temps(tree):
    """f(g(x), y) -> t = g(x); f(t, y): first argument of the outermost call
    of a statement"""
    fresh = Fresh("arg")

    def fn(s, f):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and \
                isinstance(s.value, ast.Call) and s.value.args and \
                isinstance(s.value.func, (ast.Name, ast.Attribute)) and \
                isinstance(getattr(s.value.func, "value", name("x")),
                           ast.Name):
            a = s.value.args[0]
            if isinstance(a, (ast.Starred, ast.Name, ast.Constant,
                              ast.Lambda, ast.GeneratorExp)):
                return None
            v = fresh()
            s.value.args[0] = name(v)
            return [ast.Assign([store(v)], a), s]
    rewrite(tree, fn)


@transform
def kw_temps(tree):
    fresh = Fresh("kwd")

    def fn(s, f):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and \
                isinstance(s.value, ast.Call) and s.value.keywords and \
                s.value.keywords[-1].arg and \
                not isinstance(s.value.keywords[-1].value, ast.Constant) and \
                all(pure_atom(x) for x in s.value.args) and \
                all(pure_atom(k.value) for k in s.value.keywords[:-1]) and \
                isinstance(s.value.func, (ast.Name, ast.Attribute)) and \
                isinstance(getattr(s.value.func, "value", name("x")),
                           ast.Name):
            v = fresh()
            k = s.value.keywords[-1]
            out = [ast.Assign([store(v)], k.value), s]
            k.value = name(v)
            return out
    rewrite(tree, fn)


@transform
def operand_temps(tree):
    """both operands of an outermost binary operation in variables"""
    fresh = Fresh("op")

    def fn(s, f):
        if isinstance(s, (ast.Assign, ast.Return)) and \
                isinstance(s.value, ast.BinOp):
            a, b = fresh(), fresh()
            out = [ast.Assign([store(a)], s.value.left),
                   ast.Assign([store(b)], s.value.right), s]
            s.value.left, s.value.right = name(a), name(b)
            return out
    rewrite(tree, fn)


@transform
def comp_to_loop(tree):
    """[e for x in it if c] -> explicit loop with append"""
    fresh = Fresh("acc")

    def fn(s, f):
        if not isinstance(s, (ast.Assign, ast.Return)) or \
                not isinstance(s.value, (ast.ListComp, ast.DictComp)):
            return None
        c = s.value
        if len(c.generators) != 1:
            return None
        g = c.generators[0]
        tn = names_in(g.target)
        used = [x.id for x in ast.walk(f) if isinstance(x, ast.Name)]
        if any(used.count(t) != [x.id for x in ast.walk(c) if
                                 isinstance(x, ast.Name)].count(t)
               for t in tn) or tn & set(params(f)):
            return None
        v = fresh()
        if isinstance(c, ast.ListComp):
            init = ast.List([], ast.Load())
            add = ast.Expr(ast.Call(ast.Attribute(name(v), "append",
                                                  ast.Load()), [c.elt], []))
        else:
            init = ast.Dict([], [])
            add = ast.Assign([ast.Subscript(name(v), c.key, ast.Store())],
                             c.value)
        body = [add]
        for t in reversed(g.ifs):
            body = [ast.If(t, body, [])]
        s.value = name(v)
        return [ast.Assign([store(v)], init),
                ast.For(g.target, g.iter, body, []), s]
    rewrite(tree, fn)


@transform
def loop_to_comp(tree):
    """r = [] ; for x in it: r.append(e)   ->   r = [e for x in it]"""
    for f in functions(tree):
        for n, fld, b in list(blocks(f)):
            i = 0
            while i + 1 < len(b):
                s, l = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and \
                        isinstance(s.value, ast.List) and \
                        not s.value.elts and \
                        isinstance(s.targets[0], ast.Name) and \
                        isinstance(l, ast.For) and not l.orelse and \
                        len(l.body) == 1:
                    e = l.body[0]
                    cond = []
                    if isinstance(e, ast.If) and not e.orelse and \
                            len(e.body) == 1:
                        cond, e = [e.test], e.body[0]
                    r = s.targets[0].id
                    if isinstance(e, ast.Expr) and \
                            isinstance(e.value, ast.Call) and \
                            isinstance(e.value.func, ast.Attribute) and \
                            e.value.func.attr == "append" and \
                            isinstance(e.value.func.value, ast.Name) and \
                            e.value.func.value.id == r and \
                            r not in names_in(e.value.args[0]) and \
                            not any(r in names_in(c) for c in cond):
                        later = set()
                        for q in b[i + 2:]:
                            later |= names_in(q)
                        if not (names_in(l.target) & later):
                            b[i:i + 2] = [ast.Assign(
                                s.targets, ast.ListComp(e.value.args[0], [
                                    ast.comprehension(l.target, l.iter, cond,
                                                      0)]))]
                i += 1


@transform
def for_to_while(tree):
    fresh = Fresh("it")

    def fn(s, f):
        if isinstance(s, ast.For) and not s.orelse:
            v = fresh()
            return [ast.Assign([store(v)], ast.Call(name("iter"), [s.iter],
                                                    [])),
                    ast.While(ast.Constant(True), [
                        ast.Try([ast.Assign([s.target], ast.Call(
                            name("next"), [name(v)], []))],
                            [ast.ExceptHandler(name("StopIteration"), None,
                                               [ast.Break()])], [], [])] +
                        s.body, [])]
    rewrite(tree, fn)


@transform
def loop_enumerate(tree):
    """for x in it -> for _n, x in enumerate(it)"""
    class V(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            n.iter = ast.Call(name("enumerate"), [n.iter], [])
            n.target = ast.Tuple([store("_n"), n.target], ast.Store())
            return n
    V().visit(tree)


@transform
def loop_list(tree):
    """for x in it -> seq = list(it); for x in seq, where the body can not
    change what is iterated (range, zip, enumerate, displays)"""
    fresh = Fresh("seq")

    def fn(s, f):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and \
                s.iter.func.id in ("range", "sorted"):
            v = fresh()
            out = [ast.Assign([store(v)], ast.Call(name("list"), [s.iter],
                                                   []))]
            s.iter = name(v)
            return out + [s]
    rewrite(tree, fn)


def _indexed(tree, loop):
    fresh, num = Fresh("seq"), Fresh("pos")

    def fn(s, f):
        if isinstance(s, ast.For) and not s.orelse and not any(
                isinstance(x, ast.Continue) for q in s.body
                for x in ast.walk(q)):
            v, i = fresh(), num()
            it = s.iter
            if not isinstance(it, ast.Name):
                it = ast.Call(name("list"), [it], [])
            else:
                it = ast.Call(name("list"), [it], [])
            first = ast.Assign([s.target], ast.Subscript(
                name(v), name(i), ast.Load()))
            n = ast.Call(name("len"), [name(v)], [])
            return [ast.Assign([store(v)], it)] + loop(i, n, [first] + s.body)
    rewrite(tree, fn)


@transform
def loop_index(tree):
    """for x in it -> seq = list(it); for i in range(len(seq)): x = seq[i]
    (generators of files keep their loop)"""
    _indexed(tree, lambda i, n, body: [ast.For(store(i), ast.Call(
        name("range"), [n], []), body, [])])


@transform
def loop_counter(tree):
    """the same with a counter and while"""
    _indexed(tree, lambda i, n, body: [
        ast.Assign([store(i)], ast.Constant(0)),
        ast.While(ast.Compare(name(i), [ast.Lt()], [n]), body + [
            ast.AugAssign(store(i), ast.Add(), ast.Constant(1))], [])])


@transform
def rename_locals(tree):
    for f in functions(tree):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.Global, ast.Nonlocal))
               for x in ast.walk(f) if x is not f):
            continue
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
               x.func.id in ("locals", "vars", "eval", "exec")
               for x in ast.walk(f)):
            continue
        ps = set(params(f))
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
               isinstance(x.ctx, (ast.Store, ast.Del))} - ps
        imp = {a.asname or a.name.split(".")[0] for x in ast.walk(f)
               if isinstance(x, (ast.Import, ast.ImportFrom))
               for a in x.names}
        loc -= imp
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "loc_" + x.id
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = "loc_" + x.name


@transform
def rename_underscore_params(tree):
    """parameters of nested functions and lambdas"""
    for f in ast.walk(tree):
        if isinstance(f, ast.Lambda):
            ps = {x.arg for x in f.args.args if not f.args.defaults}
            if has(f.body, ast.Lambda, ast.ListComp, ast.GeneratorExp,
                   ast.DictComp, ast.SetComp):
                continue
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and x.id in ps:
                    x.id = x.id + "_p"
                if isinstance(x, ast.arg) and x.arg in ps:
                    x.arg = x.arg + "_p"


def extractable(f):
    a = f.args
    if f.decorator_list:
        for d in f.decorator_list:
            if not (isinstance(d, ast.Name) and d.id in
                    ("property", "classmethod", "staticmethod")):
                return False
    if f.name.startswith("__") and f.name in ("__new__", "__init__") and 0:
        return False
    for x in ast.walk(f):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global,
                          ast.Nonlocal)):
            return False
        if isinstance(x, ast.Name) and x.id in ("super", "__class__",
                                                "locals", "vars"):
            return False
        n = x.attr if isinstance(x, ast.Attribute) else \
            x.id if isinstance(x, ast.Name) else ""
        if n.startswith("__") and not n.endswith("__"):
            return False
    return True


def callargs(f):
    a = f.args
    args = [name(x.arg) for x in a.posonlyargs + a.args]
    if a.vararg:
        args.append(ast.Starred(name(a.vararg.arg), ast.Load()))
    kws = [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]
    if a.kwarg:
        kws.append(ast.keyword(None, name(a.kwarg.arg)))
    return args, kws


@transform
def extract_function(tree):
    """every function body moves to a module level helper"""
    new = []

    def visit(body, prefix, clsnames):
        for s in body:
            if isinstance(s, ast.ClassDef):
                visit(s.body, prefix + s.name + "_", clsnames)
            elif isinstance(s, ast.FunctionDef) and extractable(s) and \
                    len(s.body) > 1:
                h = copy.deepcopy(s)
                h.name = "_impl_%s%s" % (prefix, s.name)
                h.decorator_list = []
                h.args.defaults = []
                h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
                args, kws = callargs(s)
                s.body = [ast.Return(ast.Call(name(h.name), args, kws))]
                new.append((s, h))
    visit(tree.body, "", ())
    # helpers go right after the imports: names are resolved when called
    i = 0
    for j, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)) or \
                (j == 0 and isinstance(s, ast.Expr)):
            i = j + 1
        elif isinstance(s, (ast.ClassDef, ast.FunctionDef)):
            break
    tree.body[i:i] = [h for _, h in new]


@transform
def extract_method(tree):
    """every method body moves to a private method"""
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        new = []
        for s in c.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and \
                    extractable(s) and len(s.body) > 1 and s.args.args and \
                    s.args.args[0].arg == "self" and \
                    s.name not in ("__new__", "__init_subclass__"):
                h = copy.deepcopy(s)
                h.name = "_do_%s_%s" % (c.name.strip("_"),
                                        s.name.strip("_"))
                h.args.defaults = []
                h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
                args, kws = callargs(s)
                s.body = [ast.Return(ast.Call(ast.Attribute(
                    name("self"), h.name, ast.Load()), args[1:], kws))]
                new.append(h)
        c.body.extend(new)


@transform
def extract_nested(tree):
    """function bodies move to a function defined inside"""
    for f in functions(tree):
        if extractable(f) and len(f.body) > 2 and not f.name.startswith("__"):
            ps = set(params(f))
            stored = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)
                      and isinstance(x.ctx, (ast.Store, ast.Del))}
            stored |= bound_otherwise(f)
            if stored & ps:
                continue
            h = ast.FunctionDef(
                name="work_", args=ast.arguments(
                    posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                    defaults=[]), body=f.body, decorator_list=[])
            f.body = [h, ast.Return(ast.Call(name("work_"), [], []))]


IMPURE = ("pop", "append", "next", "readline", "read", "write", "insert",
          "extend", "remove", "update", "setdefault", "add", "sort")


@transform
def reorder_statements(tree):
    """adjacent assignments that do not depend on each other change places"""
    def simple(s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and
                isinstance(s.targets[0], (ast.Name, ast.Attribute))):
            return False
        t = s.targets[0]
        if isinstance(t, ast.Attribute) and not (
                isinstance(t.value, ast.Name) and t.value.id == "self" and
                t.attr.startswith("_")):
            return False
        for x in ast.walk(s.value):
            if isinstance(x, ast.Call) and not (
                    isinstance(x.func, ast.Name) and x.func.id in (
                        "len", "int", "float", "str", "tuple", "list", "dict",
                        "range", "abs", "isinstance")
                    or isinstance(x.func, ast.Attribute) and
                    isinstance(x.func.value, ast.Name) and
                    x.func.value.id in ("np", "os")):
                return False
            if isinstance(x, (ast.Subscript, ast.BinOp)) and 0:
                return False
        return True

    def tgt(s):
        t = s.targets[0]
        return {t.id} if isinstance(t, ast.Name) else {"." + t.attr}

    def used(s):
        return names_in(s.value) | {"." + x.attr for x in ast.walk(s.value)
                                    if isinstance(x, ast.Attribute)}
    for f in functions(tree):
        for n, fld, b in list(blocks(f)):
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if simple(x) and simple(y) and not tgt(x) & used(y) and \
                        not tgt(y) & used(x) and tgt(x) != tgt(y):
                    b[i], b[i + 1] = y, x
                    i += 1
                i += 1


@transform
def extract_tail(tree):
    """the second half of a function moves to a helper of its own"""
    new = []

    def visit(body, prefix):
        for s in body:
            if isinstance(s, ast.ClassDef):
                visit(s.body, prefix + s.name + "_")
            elif isinstance(s, ast.FunctionDef) and extractable(s) and \
                    len(s.body) > 3 and not has(
                        s, ast.Delete, ast.Import, ast.ImportFrom) and \
                    not any(isinstance(x, (ast.FunctionDef, ast.ClassDef,
                                           ast.Lambda))
                            for x in ast.walk(s) if x is not s):
                k = len(s.body) // 2 + 1
                head, tail = s.body[:k], s.body[k:]
                # only names certainly bound: assigned at top level of head
                sure = set(params(s))
                may = set()
                for q in head:
                    if isinstance(q, ast.Assign):
                        for t in q.targets:
                            for y in ast.walk(t):
                                if isinstance(y, ast.Name) and \
                                        isinstance(y.ctx, ast.Store):
                                    sure.add(y.id)
                    for y in ast.walk(q):
                        if isinstance(y, ast.Name) and \
                                isinstance(y.ctx, ast.Store):
                            may.add(y.id)
                need = set()
                for q in tail:
                    need |= names_in(q)
                need &= (sure | may)
                if not need <= sure or not tail:
                    continue
                need = sorted(need)
                h = ast.FunctionDef(
                    name="_finish_%s%s" % (prefix, s.name),
                    args=ast.arguments(posonlyargs=[], args=[
                        ast.arg(x) for x in need], kwonlyargs=[],
                        kw_defaults=[], defaults=[]),
                    body=tail, decorator_list=[])
                s.body = head + [ast.Return(ast.Call(
                    name(h.name), [name(x) for x in need], []))]
                new.append(h)
    visit(tree.body, "")
    i = 0
    for j, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)) or \
                (j == 0 and isinstance(s, ast.Expr)):
            i = j + 1
        elif isinstance(s, (ast.ClassDef, ast.FunctionDef)):
            break
    tree.body[i:i] = new


@transform
def extract_expression(tree):
    """the value of each assignment with a call is computed in a helper"""
    new = []
    fresh = Fresh("_value")

    def fn(s, f):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and \
                len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.value
            if has(v, ast.Lambda, ast.Yield, ast.NamedExpr) or \
                    any(isinstance(x, ast.Name) and x.id in
                        ("super", "locals", "vars", "__class__")
                        for x in ast.walk(v)) or \
                    any(isinstance(x, ast.Attribute) and
                        x.attr.startswith("__") and
                        not x.attr.endswith("__") for x in ast.walk(v)):
                return None
            bound = set()
            for c in ast.walk(v):
                if isinstance(c, ast.comprehension):
                    bound |= names_in(c.target)
            loc = set(params(f)) | {
                x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
                isinstance(x.ctx, ast.Store)} | {
                a.asname or a.name.split(".")[0] for x in ast.walk(f)
                if isinstance(x, (ast.Import, ast.ImportFrom))
                for a in x.names} | {
                x.name for x in ast.walk(f)
                if isinstance(x, (ast.FunctionDef, ast.ClassDef))
                and x is not f}
            if f not in top:
                return None
            need = sorted((names_in(v) & loc) - bound)
            if bound & loc - bound:
                return None
            h = ast.FunctionDef(
                name=fresh(), args=ast.arguments(
                    posonlyargs=[], args=[ast.arg(x) for x in need],
                    kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=[ast.Return(v)], decorator_list=[])
            new.append(h)
            s.value = ast.Call(name(h.name), [name(x) for x in need], [])
            return [s]
    top = set()
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            top.add(s)
        if isinstance(s, ast.ClassDef):
            top |= {q for q in s.body if isinstance(q, ast.FunctionDef)}
    rewrite(tree, fn)
    i = 0
    for j, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)) or \
                (j == 0 and isinstance(s, ast.Expr)):
            i = j + 1
        elif isinstance(s, (ast.ClassDef, ast.FunctionDef)):
            break
    tree.body[i:i] = new


@transform
def extract_loop_body(tree):
    """one pass of a loop without break/continue/return, that only changes
    objects, in a helper"""
    new = []
    fresh = Fresh("_step")

    def fn(s, f):
        if not isinstance(s, ast.For) or f not in top or s.orelse:
            return None
        if any(has(q, ast.Break, ast.Continue, ast.Return, ast.Yield,
                   ast.Lambda, ast.FunctionDef, ast.Delete, ast.Raise)
               for q in s.body):
            return None
        assigned = set()
        for q in s.body:
            for x in ast.walk(q):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    assigned.add(x.id)
                if isinstance(x, ast.Name) and x.id in ("super", "locals"):
                    return None
                if isinstance(x, ast.AugAssign):
                    return None
                if isinstance(x, ast.Attribute) and \
                        x.attr.startswith("__") and \
                        not x.attr.endswith("__"):
                    return None
        inside = {}
        for q in s.body:
            for x in ast.walk(q):
                if isinstance(x, ast.Name):
                    inside[x.id] = inside.get(x.id, 0) + 1
        total = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Name):
                total[x.id] = total.get(x.id, 0) + 1
        if any(total[a] != inside[a] for a in assigned):
            return None
        loc = set(params(f)) | {
            x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
            isinstance(x.ctx, ast.Store)} | bound_otherwise(f)
        need = sorted((set(inside) & loc) - assigned)
        h = ast.FunctionDef(
            name=fresh(), args=ast.arguments(
                posonlyargs=[], args=[ast.arg(x) for x in need],
                kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=s.body, decorator_list=[])
        new.append(h)
        s.body = [ast.Expr(ast.Call(name(h.name), [name(x) for x in need],
                                    []))]
        return [s]
    top = set()
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            top.add(s)
        if isinstance(s, ast.ClassDef):
            top |= {q for q in s.body if isinstance(q, ast.FunctionDef)}
    rewrite(tree, fn)
    i = 0
    for j, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)) or \
                (j == 0 and isinstance(s, ast.Expr)):
            i = j + 1
        elif isinstance(s, (ast.ClassDef, ast.FunctionDef)):
            break
    tree.body[i:i] = new


@transform
def split_tuple_assign(tree):
    fresh = Fresh("part")

    def fn(s, f):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Tuple) and \
                isinstance(s.value, ast.Tuple) and \
                len(s.targets[0].elts) == len(s.value.elts):
            vs = [fresh() for _ in s.value.elts]
            return [ast.Assign([store(v)], e)
                    for v, e in zip(vs, s.value.elts)] + \
                   [ast.Assign([t], name(v))
                    for v, t in zip(vs, s.targets[0].elts)]
    rewrite(tree, fn)


@transform
def unpack_by_index(tree):
    """a, b = call() -> t = tuple(call()) ; a = t[0] ; b = t[1]"""
    fresh = Fresh("pair")

    def fn(s, f):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Tuple) and \
                not isinstance(s.value, ast.Tuple) and \
                not any(isinstance(e, ast.Starred)
                        for e in s.targets[0].elts):
            v = fresh()
            return [ast.Assign([store(v)], ast.Call(name("tuple"), [s.value],
                                                    []))] + \
                [ast.Assign([t], ast.Subscript(name(v), ast.Constant(i),
                                               ast.Load()))
                 for i, t in enumerate(s.targets[0].elts)]
    rewrite(tree, fn)


@transform
def int_augassign(tree):
    def fn(s, f):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) \
                and isinstance(s.value, ast.Constant):
            return [ast.Assign([s.target], ast.BinOp(
                name(s.target.id), s.op, s.value))]
    rewrite(tree, fn)


@transform
def with_to_finally(tree):
    def fn(s, f):
        if isinstance(s, ast.With) and len(s.items) == 1 and \
                isinstance(s.items[0].context_expr, ast.Call) and \
                isinstance(s.items[0].context_expr.func, ast.Name) and \
                s.items[0].context_expr.func.id == "open" and \
                isinstance(s.items[0].optional_vars, ast.Name):
            v = s.items[0].optional_vars.id
            return [ast.Assign([store(v)], s.items[0].context_expr),
                    ast.Try(s.body, [], [], [ast.Expr(ast.Call(
                        ast.Attribute(name(v), "close", ast.Load()), [],
                        []))])]
    rewrite(tree, fn)


@transform
def alias_self(tree):
    """methods work on a local name for self"""
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.args.args and \
                    f.args.args[0].arg == "self" and not any(
                        isinstance(x, ast.Name) and x.id == "super"
                        for x in ast.walk(f)):
                for x in ast.walk(f):
                    if isinstance(x, ast.Name) and x.id == "self":
                        x.id = "this"
                i = 1 if isinstance(f.body[0], ast.Expr) and \
                    isinstance(f.body[0].value, ast.Constant) else 0
                f.body.insert(i, ast.Assign([store("this")], name("self")))


@transform
def numpy_names(tree):
    """import numpy as np -> import numpy"""
    al = {}
    for s in tree.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname and "." not in a.name:
                    al[a.asname] = a.name
    al = {k: v for k, v in al.items() if v == "numpy"}
    if not al:
        return
    for s in tree.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname in al:
                    a.asname = None
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and x.id in al:
            x.id = al[x.id]
    # others may import the old name from here
    for k, v in al.items():
        for i, s in enumerate(tree.body):
            if isinstance(s, ast.Import) and any(a.name == v
                                                 for a in s.names):
                tree.body.insert(i + 1, ast.Assign([store(k)], name(v)))
                break


@transform
def module_constants(tree):
    """numbers and strings used in functions become module constants"""
    new = []
    seen = {}
    doc = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.Expr) and isinstance(f.value, ast.Constant):
            doc.add(f.value)
        if isinstance(f, ast.JoinedStr):
            doc.update(ast.walk(f))

    class V(ast.NodeTransformer):
        def visit_Constant(self, n):
            if n in doc or n.value is None or isinstance(n.value, bool) or \
                    n.value is Ellipsis:
                return n
            k = (type(n.value), repr(n.value))
            if k not in seen:
                seen[k] = "_K%d" % len(seen)
                new.append(ast.Assign([store(seen[k])],
                                      ast.Constant(n.value)))
            return name(seen[k])

        def visit_FunctionDef(self, n):
            n.body = [self.visit(s) for s in n.body]
            return n

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Constant):
                return n
            return self.generic_visit(n)
    v = V()
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            v.visit(s)
        if isinstance(s, ast.ClassDef):
            for q in s.body:
                if isinstance(q, ast.FunctionDef):
                    v.visit(q)
    i = 0
    for j, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)) or \
                (j == 0 and isinstance(s, ast.Expr)):
            i = j + 1
        elif isinstance(s, (ast.ClassDef, ast.FunctionDef)):
            break
    tree.body[i:i] = new


@transform
def reverse_methods(tree):
    """definitions in another order (methods of a class without decorators
    or class level uses of each other)"""
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            idx = [i for i, s in enumerate(c.body)
                   if isinstance(s, ast.FunctionDef) and
                   not s.decorator_list]
            names = [c.body[i].name for i in idx]
            if len(set(names)) != len(names):
                continue
            used = set()
            for s in c.body:
                if not isinstance(s, ast.FunctionDef):
                    used |= names_in(s)
                else:
                    for d in s.decorator_list + s.args.defaults:
                        used |= names_in(d)
            if used & set(names):
                continue
            ss = [c.body[i] for i in idx][::-1]
            for i, s in zip(idx, ss):
                c.body[i] = s


@transform
def reraise_style(tree):
    """raise E(msg) -> err = E(msg); raise err"""
    def fn(s, f):
        if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call) and \
                s.cause is None:
            return [ast.Assign([store("error_")], s.exc),
                    ast.Raise(name("error_"), None)]
    rewrite(tree, fn)


@transform
def format_style(tree):
    """"..%s.." % x  ->  "..{}..".format(x)   (only %s)"""
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mod) and \
                    isinstance(n.left, ast.Constant) and \
                    isinstance(n.left.value, str) and \
                    n.left.value.count("%") == n.left.value.count("%s") and \
                    "{" not in n.left.value and "}" not in n.left.value:
                k = n.left.value.count("%s")
                if isinstance(n.right, ast.Tuple) and \
                        len(n.right.elts) == k:
                    args = n.right.elts
                elif k == 1 and isinstance(n.right, ast.Constant):
                    args = [n.right]
                else:
                    return n
                return ast.Call(ast.Attribute(ast.Constant(
                    n.left.value.replace("%s", "{!s}")), "format",
                    ast.Load()), args, [])
            return n
    V().visit(tree)


@transform
def dict_literals(tree):
    """dict(a=1) -> {"a": 1}"""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "dict" and \
                    not n.args and n.keywords and \
                    all(k.arg for k in n.keywords):
                return ast.Dict([ast.Constant(k.arg) for k in n.keywords],
                                [k.value for k in n.keywords])
            if isinstance(n.func, ast.Name) and n.func.id == "list" and \
                    not n.args:
                return ast.List([], ast.Load())
            return n
    V().visit(tree)


@transform
def keyword_splat(tree):
    """f(a, k=v) -> f(a, **{"k": v}) on returns"""
    def fn(s, f):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and \
                s.value.keywords and all(k.arg for k in s.value.keywords):
            c = s.value
            d = ast.Assign([store("options_")], ast.Call(
                name("dict"), [], c.keywords))
            if not (all(pure_atom(a) for a in c.args) and
                    isinstance(c.func, ast.Name)):
                return None
            c.keywords = [ast.keyword(None, name("options_"))]
            return [d, s]
    rewrite(tree, fn)


@transform
def super_style(tree):
    """super(C, self).m(...) -> super().m(...) in methods of C"""
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or not f.args.args:
                continue
            first = f.args.args[0].arg
            for x in ast.walk(f):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) \
                        and x.func.id == "super" and len(x.args) == 2 and \
                        isinstance(x.args[0], ast.Name) and \
                        x.args[0].id == c.name and \
                        isinstance(x.args[1], ast.Name) and \
                        x.args[1].id == first:
                    x.args = []


@transform
def annotate(tree):
    for f in functions(tree):
        for a in f.args.args:
            if a.arg not in ("self", "cls"):
                a.annotation = name("object")
        f.returns = name("object")


@transform
def try_else(tree):
    """try: A; B except E  ... return after -> unchanged meaning: finally"""
    def fn(s, f):
        if isinstance(s, ast.Try) and not s.orelse and not s.finalbody:
            s.finalbody = [ast.Pass()]
            return [s]
    rewrite(tree, fn)


@transform
def unroll_elif(tree):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" \
                    and len(n.args) == 2 and \
                    isinstance(n.args[1], ast.Tuple) and \
                    isinstance(n.args[0], ast.Name):
                return ast.BoolOp(ast.Or(), [
                    ast.Call(name("isinstance"), [copy.deepcopy(n.args[0]),
                                                  t], [])
                    for t in n.args[1].elts])
            return n
    V().visit(tree)


@transform
def in_tuple_to_or(tree):
    """x in ("a", "b") -> x == "a" or x == "b" """
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and \
                    isinstance(n.left, ast.Name) and \
                    isinstance(n.comparators[0], (ast.Tuple, ast.List)) and \
                    len(n.comparators[0].elts) > 1 and \
                    all(isinstance(e, ast.Constant)
                        for e in n.comparators[0].elts):
                return ast.BoolOp(ast.Or(), [
                    ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e])
                    for e in n.comparators[0].elts])
            return n
    V().visit(tree)


def files(root):
    for d, ds, fs in os.walk(os.path.join(root, "hftools")):
        ds[:] = [x for x in ds if x not in SKIP]
        for f in sorted(fs):
            if f.endswith(".py"):
                yield os.path.join(d, f)


def apply(root, t, only=None):
    n = 0
    for p in files(root):
        if only is not None and os.path.relpath(p, root) not in only:
            continue
        with tokenize.open(p) as fh:
            src = fh.read()
        tree = ast.parse(src)
        before = ast.dump(tree)
        for step in t.split("+"):
            T[step](tree)
            ast.fix_missing_locations(tree)
            tree = ast.parse(ast.unparse(tree))
        out = ast.unparse(tree)
        compile(out, p, "exec")
        if ast.dump(ast.parse(out)) != before:
            n += 1
            with open(p, "w", encoding="utf-8") as fh:
                fh.write("# -*- coding: utf-8 -*-\n" + out + "\n")
    return n


def scratch():
    d = tempfile.mkdtemp(prefix="refac")
    shutil.copytree(os.path.join(REPO, "hftools"), os.path.join(d, "hftools"),
                    ignore=shutil.ignore_patterns("*.pyc"))
    return d


def run(d, pid):
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVID=os.path.join(d, "ev"))
    r = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"),
                        pid], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    return pid, r.returncode, r.stdout.decode("utf8", "replace")


def main(argv):
    rules = sorted(f[:-3].upper() for f in
                   os.listdir(os.path.join(HERE, "..", "sa", "rules"))
                   if f.startswith("c") and f.endswith(".py"))
    ts = sorted(T)
    keep = "--keep" in argv
    if "-t" in argv:
        ts = argv[argv.index("-t") + 1].split(",")
    if "-p" in argv:
        rules = argv[argv.index("-p") + 1].split(",")
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        jobs = []
        dirs = []
        for t in ts:
            d = scratch()
            dirs.append(d)
            n = apply(d, t)
            jobs += [(t, n, d, ex.submit(run, d, p)) for p in rules]
        for t, n, d, j in jobs:
            pid, rc, out = j.result()
            if rc != 0:
                bad += 1
                print("ALARM", t, pid, "rc=%d" % rc)
                print("\n".join([l[:int(os.environ.get("WID", "260"))]
                                 for l in out.split("\n")
                                 if l.startswith("  ") or rc == 2][:6]))
                sys.stdout.flush()
        for d in dirs:
            if keep:
                print(d)
            else:
                shutil.rmtree(d)
    print("%d transforms, %d checks, %d alarms" % (len(ts), len(rules), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
