"""Program model of /repo/hftools: modules, imports, classes, functions.

Everything here is derived from the source text with the standard library's
``ast`` module; nothing of hftools is imported or executed.
"""
import ast
import builtins
import warnings
import os

from .normal import normalise

warnings.simplefilter("ignore", SyntaxWarning)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__"}

# Python-2-only leftovers that no Python 3 interpreter can import.
EXCLUDED = ("hftools/file_formats/slask/", "hftools/testing/ipnbdoctest.py")


class AnalysisBroken(Exception):
    """An anchor the analysis needs no longer exists."""


class FuncInfo(object):
    def __init__(self, module, node, qual, cls=None, parent=None):
        self.module = module
        self.node = node
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual
        self.cls = cls
        self.parent = parent
        self.decorators = list(getattr(node, "decorator_list", []))

    @property
    def args(self):
        return self.node.args

    @property
    def defaults(self):
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]],
                       a.defaults))
        out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
                    if d is not None})
        return out

    @property
    def is_setter(self):
        return any(isinstance(d, ast.Attribute) and
                   d.attr in ("setter", "deleter") for d in self.decorators)

    @property
    def params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            out.append(a.vararg.arg)
        out += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    @property
    def positional(self):
        return [x.arg for x in self.node.args.posonlyargs + self.node.args.args]

    @property
    def body(self):
        if isinstance(self.node, ast.Lambda):
            return [ast.copy_location(ast.Return(self.node.body), self.node.body)]
        return self.node.body

    def is_generator(self):
        if not hasattr(self, "_gen"):
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                            for n in walk_own(self.node))
        return self._gen

    @property
    def fullname(self):
        return self.module.name + "." + self.qual

    @property
    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<func %s>" % self.fullname


class ClassInfo(object):
    def __init__(self, module, node, qual):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = qual
        self.methods = {}     # name -> FuncInfo (last definition wins)
        self.setters = {}     # property name -> FuncInfo
        self.attrs = {}       # class level assignments name -> value node

    @property
    def fullname(self):
        return self.module.name + "." + self.qual

    def bases(self):
        if not hasattr(self, "_bases"):
            self._bases = [self.module.prog.resolve_expr(self.module, b)
                           for b in self.node.bases]
        return self._bases

    def mro(self):
        if not hasattr(self, "_mro"):
            self._mro = [self]
            out = [self]
            for b in self.bases():
                if isinstance(b, ClassInfo):
                    for c in b.mro():
                        if c in out:
                            out.remove(c)
                        out.append(c)
            self._mro = out
        return self._mro

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases():
                if isinstance(b, Ext):
                    out.append(b.name)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def is_property(self, name):
        f = self.find(name)
        return f is not None and any(
            (isinstance(d, ast.Name) and d.id in ("property", "cached_property")) or
            (isinstance(d, ast.Attribute) and d.attr in ("getter", "cached_property"))
            for d in f.decorators)

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.fullname


class Ext(object):
    """Something outside the repository, by dotted name."""
    _pool = {}

    def __new__(cls, name):
        if name not in cls._pool:
            o = object.__new__(cls)
            o.name = name
            cls._pool[name] = o
        return cls._pool[name]

    def __repr__(self):
        return "<ext %s>" % self.name


class ModVar(object):
    def __init__(self, module, name, nodes):
        self.module = module
        self.name = name
        self.nodes = nodes       # list of value expressions (None: loop var...)

    @property
    def fullname(self):
        return self.module.name + "." + self.name

    def __repr__(self):
        return "<var %s>" % self.fullname


class Module(object):
    def __init__(self, prog, name, path, tree, src, is_pkg):
        self.prog = prog
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.tree = tree
        self.src = src
        self.is_pkg = is_pkg
        self.syms = {}        # name -> FuncInfo|ClassInfo|ModVar|("import",..)
        self.stars = []       # modules star-imported, in order
        self.functions = []   # every FuncInfo in the file, nested included
        self.classes = []
        self.all = None

    def __repr__(self):
        return "<module %s>" % self.name


def walk_own(fn):
    """Walk a function's own body, not entering nested functions/classes."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def fold_flag(test, syms):
    """a flag that is a constant unless an import failed"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        v = fold_flag(test.operand, syms)
        return None if v is None else not v
    f = syms.get(test.id) if isinstance(test, ast.Name) else None
    if isinstance(f, ModVar) and len(f.nodes) == 1 and isinstance(
            f.nodes[0], ast.Constant) and isinstance(
                f.nodes[0].value, bool):
        return f.nodes[0].value
    return None


def fold_py3(test):
    """Truth of the interpreter-version tests used to pick py2/py3 code."""
    if isinstance(test, ast.Name) and test.id == "PY3":
        return True
    if isinstance(test, ast.Attribute) and test.attr == "PY3":
        return True
    if isinstance(test, ast.Attribute) and test.attr == "PY2":
        return False
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        v = fold_py3(test.operand)
        return None if v is None else not v
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
            "version_info" in ast.dump(test.left):
        try:
            right = ast.literal_eval(test.comparators[0])
        except ValueError:
            return None
        left = (3, 12) if isinstance(right, tuple) else 3
        if isinstance(test.left, ast.Subscript) and isinstance(right, tuple):
            right = right[:2]
        op = test.ops[0]
        try:
            return {ast.Gt: left > right, ast.GtE: left >= right,
                    ast.Lt: left < right, ast.LtE: left <= right,
                    ast.Eq: left == right,
                    ast.NotEq: left != right}.get(type(op))
        except TypeError:
            return None
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
            isinstance(test.left, ast.Name) and test.left.id == "__name__":
        return False
    if isinstance(test, ast.Constant):
        return bool(test.value)
    return None


class Program(object):
    def __init__(self, root=None):
        self.root = root or os.path.join(REPO, "hftools")
        self.modules = {}
        self.errors = []
        base = os.path.dirname(self.root)
        for dirpath, dirnames, filenames in os.walk(self.root):
            dirnames[:] = sorted(d for d in dirnames
                                 if d not in ("tests", "__pycache__"))
            for f in sorted(filenames):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dirpath, f)
                rel = os.path.relpath(p, base).replace(os.sep, "/")
                if any(rel.startswith(e) for e in EXCLUDED):
                    continue
                name = rel[:-3].replace("/", ".")
                is_pkg = name.endswith(".__init__")
                if is_pkg:
                    name = name[:-len(".__init__")]
                with open(p, "rb") as fh:
                    src = fh.read()
                try:
                    tree = normalise(ast.parse(src, p))
                except SyntaxError as exc:
                    self.errors.append("%s: %s" % (rel, exc))
                    continue
                m = Module(self, name, p, tree, src, is_pkg)
                self.modules[name] = m
        for m in self.modules.values():
            self._index(m)

    # -- indexing ---------------------------------------------------------
    def _index(self, m):
        self._block(m, m.tree.body, m.syms)

    def _addfunc(self, m, node, qual, cls=None, parent=None):
        fi = FuncInfo(m, node, qual, cls, parent)
        node._fi = fi
        m.functions.append(fi)
        for sub in walk_own(node):
            if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._addfunc(m, sub, qual + "." + sub.name, None, fi)
            elif isinstance(sub, ast.Lambda):
                self._addfunc(m, sub, qual + ".<lambda>", None, fi)
            elif isinstance(sub, ast.ClassDef):
                self._addclass(m, sub, qual + "." + sub.name)
        return fi

    def _addclass(self, m, node, qual):
        ci = ClassInfo(m, node, qual)
        node._ci = ci
        m.classes.append(ci)

        def block(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = self._addfunc(m, st, qual + "." + st.name, ci)
                    setter = [d for d in st.decorator_list
                              if isinstance(d, ast.Attribute)
                              and d.attr == "setter"]
                    if setter:
                        ci.setters[st.name] = fi
                    else:
                        ci.methods[st.name] = fi
                elif isinstance(st, ast.Assign):
                    self._lambdas(m, st, qual)
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            ci.attrs[t.id] = st.value
                            if isinstance(st.value, ast.Name) and \
                                    st.value.id in ci.methods:
                                ci.methods[t.id] = ci.methods[st.value.id]
                            if isinstance(st.value, ast.Call) and \
                                    isinstance(st.value.func, ast.Name) and \
                                    st.value.func.id == "property" and \
                                    st.value.args and \
                                    isinstance(st.value.args[0], ast.Name):
                                nm = st.value.args[0].id
                                if nm in ci.methods:
                                    ci.methods[t.id] = _as_property(
                                        ci.methods[nm])
                                if len(st.value.args) > 1 and isinstance(
                                        st.value.args[1], ast.Name) and \
                                        st.value.args[1].id in ci.methods:
                                    ci.setters[t.id] = ci.methods[
                                        st.value.args[1].id]
                elif isinstance(st, ast.If):
                    v = fold_py3(st.test)
                    if v is not False:
                        block(st.body)
                    if v is not True:
                        block(st.orelse)
                elif isinstance(st, ast.ClassDef):
                    self._addclass(m, st, qual + "." + st.name)
        block(node.body)
        return ci

    def _lambdas(self, m, st, qual):
        for sub in ast.walk(st):
            if isinstance(sub, ast.Lambda) and not hasattr(sub, "_fi"):
                self._addfunc(m, sub, (qual + "." if qual else "") + "<lambda>")

    def _block(self, m, stmts, syms):
        for st in stmts:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                syms[st.name] = self._addfunc(m, st, st.name)
            elif isinstance(st, ast.ClassDef):
                syms[st.name] = self._addclass(m, st, st.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        syms[a.asname] = ("mod", a.name)
                    else:
                        syms[a.name.split(".")[0]] = ("mod",
                                                      a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._from_base(m, st)
                for a in st.names:
                    if a.name == "*":
                        m.stars.append(base)
                    else:
                        syms[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                self._lambdas(m, st, "")
                targets = st.targets if isinstance(st, ast.Assign) \
                    else [st.target]
                for t in targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and \
                                isinstance(n.ctx, ast.Store):
                            v = st.value if n is t else None
                            old = syms.get(n.id)
                            if isinstance(old, ModVar):
                                old.nodes.append(v)
                            else:
                                syms[n.id] = ModVar(m, n.id, [v])
                            if n.id == "__all__":
                                try:
                                    m.all = list(ast.literal_eval(st.value))
                                except ValueError:
                                    pass
            elif isinstance(st, ast.If):
                v = fold_py3(st.test)
                if v is None:
                    v = fold_flag(st.test, syms)
                if v is not False:
                    self._block(m, st.body, syms)
                if v is not True:
                    self._block(m, st.orelse, syms)
            elif isinstance(st, ast.Try):
                self._block(m, st.body, syms)
                for h in st.handlers:
                    sub = {}
                    self._block(m, h.body, sub)
                    for k, v2 in sub.items():
                        syms.setdefault(k, v2)
                self._block(m, st.orelse, syms)
                self._block(m, st.finalbody, syms)
            elif isinstance(st, (ast.For, ast.While, ast.With)):
                self._lambdas(m, st, "")
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            syms.setdefault(n.id, ModVar(m, n.id, [None]))
                self._block(m, st.body, syms)
                self._block(m, getattr(st, "orelse", []), syms)
            elif isinstance(st, ast.Expr):
                self._lambdas(m, st, "")
            elif isinstance(st, ast.Delete):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        syms.pop(t.id, None)

    def _from_base(self, m, st):
        if st.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            up = st.level - 1
            if up:
                parts = parts[:-up]
            if st.module:
                parts.append(st.module)
            return ".".join(parts)
        return st.module

    # -- resolution -------------------------------------------------------
    def lookup(self, m, name, seen=None):
        """Resolve a module-level name; None when it does not exist."""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        s = m.syms.get(name)
        if s is None:
            for star in reversed(m.stars):
                sm = self.modules.get(star)
                if sm is None:
                    continue
                if sm.all is not None and name not in sm.all:
                    continue
                if sm.all is None and name.startswith("_"):
                    continue
                r = self.lookup(sm, name, seen)
                if r is not None:
                    return r
            sub = m.name + "." + name
            if sub in self.modules:
                return self.modules[sub]
            return None
        return self._deref(s, seen)

    def _deref(self, s, seen=None):
        if isinstance(s, tuple):
            if s[0] == "mod":
                return self.modules.get(s[1]) or Ext(s[1])
            base, name = s[1], s[2]
            bm = self.modules.get(base)
            if bm is not None:
                r = self.lookup(bm, name, seen)
                if r is not None:
                    return r
                sub = base + "." + name
                if sub in self.modules:
                    return self.modules[sub]
                if any(st not in self.modules for st in bm.stars):
                    return Ext(base + "." + name)
                return None
            return Ext(base + "." + name)
        return s

    def star_external(self, m, seen=None):
        """True when a star import from outside may supply names."""
        seen = seen or set()
        if m.name in seen:
            return False
        seen.add(m.name)
        for st in m.stars:
            if st not in self.modules:
                return True
            if self.star_external(self.modules[st], seen):
                return True
        return False

    def attr_of(self, ent, name):
        if isinstance(ent, Module):
            return self.lookup(ent, name)
        if isinstance(ent, Ext):
            return Ext(ent.name + "." + name)
        if isinstance(ent, ClassInfo):
            return ent.find(name)
        return None

    def resolve_expr(self, m, node):
        """Entity for a Name / dotted Attribute at module level, or None."""
        if isinstance(node, ast.Name):
            r = self.lookup(m, node.id)
            if r is None and node.id in BUILTINS:
                return Ext("builtins." + node.id)
            return r
        if isinstance(node, ast.Attribute):
            base = self.resolve_expr(m, node.value)
            if base is None:
                return None
            return self.attr_of(base, node.attr)
        return None

    def func(self, fullname):
        """FuncInfo by 'module:Qual.name'; follows re-exports; raises."""
        f = self.find_func(fullname)
        if f is None:
            raise AnalysisBroken("no function %s" % fullname)
        return f

    def find_func(self, fullname):
        mod, qual = fullname.split(":")
        m = self.modules.get(mod)
        if m is None:
            return None
        parts = qual.split(".")
        ent = self.lookup(m, parts[0])
        for p in parts[1:]:
            if isinstance(ent, ClassInfo):
                ent = ent.find(p)
            else:
                return None
        if isinstance(ent, ModVar) and ent.nodes and ent.nodes[-1] is not None:
            r = self.resolve_expr(ent.module, ent.nodes[-1])
            if isinstance(r, FuncInfo):
                return r
            n = ent.nodes[-1]
            if isinstance(n, ast.Lambda) and hasattr(n, "_fi"):
                return n._fi
        return ent if isinstance(ent, FuncInfo) else None

    def cls(self, fullname):
        mod, qual = fullname.split(":")
        m = self.modules.get(mod)
        c = self.lookup(m, qual) if m else None
        if not isinstance(c, ClassInfo):
            raise AnalysisBroken("no class %s" % fullname)
        return c

    def rebound(self, mv):
        """A function of the module rebinds this variable (global)."""
        c = self.__dict__.setdefault("_rebound", {})
        m = mv.module
        if m.name not in c:
            c[m.name] = {n for nd in ast.walk(m.tree)
                         if isinstance(nd, ast.Global) for n in nd.names}
        return mv.name in c[m.name]

    def attr_fixed(self, ci, name):
        """No subclass and no method gives attribute ``name`` another value."""
        c = self.__dict__.setdefault("_attr_fixed", {})
        k = (ci, name)
        if k not in c:
            ok = True
            for o in self.all_classes():
                if not (o.subclass_of(ci) or ci.subclass_of(o)):
                    continue
                if o is not ci and o.subclass_of(ci) and (
                        name in o.methods or name in o.attrs):
                    ok = False
            c[k] = ok and name not in self.stored_attrs()
        return c[k]

    def stored_attrs(self):
        """names of the attributes that are stored anywhere"""
        s = self.__dict__.get("_stored_attrs")
        if s is None:
            s = self._stored_attrs = set()
            for m in self.modules.values():
                for nd in ast.walk(m.tree):
                    if isinstance(nd, ast.Attribute) and \
                            isinstance(nd.ctx, ast.Store):
                        s.add(nd.attr)
        return s

    def all_functions(self, prefix="hftools"):
        for m in sorted(self.modules.values(), key=lambda x: x.name):
            if m.name.startswith(prefix):
                for f in m.functions:
                    yield f

    def all_classes(self):
        for m in sorted(self.modules.values(), key=lambda x: x.name):
            for c in m.classes:
                yield c


def _as_property(fi):
    import copy
    new = copy.copy(fi)
    new.decorators = [ast.Name(id="property", ctx=ast.Load())]
    return new
