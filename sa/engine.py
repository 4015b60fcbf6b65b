"""Value-flow analysis.

A structured, flow-sensitive dataflow analysis over the syntax tree.  Every
expression is mapped to a hash-consed value-flow term; control-flow merges
produce gated phi terms; loops are summarised (loop-carried variables become
'loop' terms with an init and an update; list contents are element sets, so an
append loop and a comprehension give the same facts); calls to functions of
the repository are inlined up to a depth, so that an extracted helper is
transparent.  The result of analysing a function is the set of returned
terms, the abstract heap, and an ordered log of events (calls, stores,
deletions, raises, returns, yields), each with the conditions guarding it.

No path is ever handed to a solver and no code is executed: conditions stay
uninterpreted except for literal constants.
"""
import ast
import json
import os

from .model import (AnalysisBroken, BUILTINS, ClassInfo, Ext, FuncInfo, Module, ModVar,
                    fold_py3, walk_own)


DEBUG = bool(os.environ.get("VERIF_DEBUG"))
FAULTS = []      # statements the engine could not model


class T(object):
    __slots__ = ("op", "args", "id", "_hash")
    pool = {}

    def __new__(cls, op, *args):
        key = (op, args)
        t = cls.pool.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.id = len(cls.pool)
            cls.pool[key] = t
        return t

    def __repr__(self):
        return show(self)


def _ck(v):
    return (type(v).__name__, v)


def const(v):
    try:
        hash(v)
    except TypeError:
        return T("unk", repr(v))
    return T("const", type(v).__name__, v)


NONE = const(None)
UNDEF = T("undef")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return repr(t)
    if d > 8:
        return "..."
    o, a = t.op, t.args
    if o == "const":
        return repr(a[1])
    if o == "param":
        return "$" + a[0]
    if o == "ent":
        e = a[0]
        return getattr(e, "fullname", None) or getattr(e, "name", repr(e))
    if o == "attr":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if o == "sub":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "call":
        f, args, kw = a[0], a[1], a[2]
        parts = [show(x, d + 1) for x in args]
        parts += ["%s=%s" % (k, show(v, d + 1)) for k, v in kw]
        return "%s(%s)" % (show(f, d + 1), ", ".join(parts))
    if o == "bin":
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if o == "cmp":
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if o == "phi":
        return "phi(%s ? %s : %s)" % tuple(show(x, d + 1) for x in a)
    if o == "tuple":
        return "(" + ", ".join(show(x, d + 1) for x in a) + ")"
    if o == "obj":
        return "<%s %s>" % (a[0], a[2].name if len(a) > 2 and a[2] is not None
                            and hasattr(a[2], "name") else a[1][-1:])
    if o == "elem":
        return "elem(%s)" % show(a[0], d + 1)
    if o == "loop":
        return "loop:%s" % (a[1][-1] if isinstance(a[1], tuple) else a[1],)
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))


class Event(object):
    __slots__ = ("kind", "node", "fi", "guards", "loops", "seq", "stack",
                 "obj", "name", "val", "args", "kw", "res", "trys")

    def __init__(self, kind, node, fi, guards, loops, seq, stack, trys, **kw):
        self.kind = kind
        self.node = node
        self.fi = fi
        self.guards = guards
        self.loops = loops
        self.seq = seq
        self.stack = stack
        self.trys = trys
        self.obj = kw.get("obj")
        self.name = kw.get("name")
        self.val = kw.get("val")
        self.args = kw.get("args", ())
        self.kw = kw.get("kw", ())
        self.res = kw.get("res")

    @property
    def key(self):
        """subscript of a store_sub / del_sub"""
        if self.kind == "store_sub":
            return self.args[0] if self.args else None
        return self.val

    @property
    def loc(self):
        return "%s:%d (%s)" % (self.fi.module.rel,
                               getattr(self.node, "lineno", 0), self.fi.qual)

    def __repr__(self):
        return "<%s %s.%s val=%s at %s>" % (self.kind, self.obj, self.name,
                                            self.val, self.loc)


class State(object):
    __slots__ = ("d", "guards")

    def __init__(self, d=None, guards=()):
        self.d = d if d is not None else {}
        self.guards = guards

    def copy(self):
        return State(dict(self.d), self.guards)

    def guard(self, cond, pol):
        st = self.copy()
        st.guards = self.guards + tuple(split_guard(cond, pol))
        return st


def split_guard(cond, pol):
    if cond.op == "not":
        return split_guard(cond.args[0], not pol)
    if cond.op == "and" and pol:
        return [g for a in cond.args for g in split_guard(a, True)]
    if cond.op == "or" and not pol:
        return [g for a in cond.args for g in split_guard(a, False)]
    return [(cond, pol)]


def guard_term(guards):
    ts = [c if p else mk_not(c) for c, p in guards]
    if not ts:
        return const(True)
    if len(ts) == 1:
        return ts[0]
    return T("and", *ts)


def mk_not(t):
    if t.op == "not":
        return t.args[0]
    if t.op == "const":
        return const(not cval(t))
    return T("not", t)


_KNOWN = []


def known(fi):
    """Was this function there when the rules were written (docs/inventory.py)?
    If not it is an extracted helper: always looked through."""
    if not _KNOWN:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                         "known.json")
        with open(p) as fh:
            _KNOWN.append(frozenset(json.load(fh)))
    return fi.fullname in _KNOWN[0]


class Frame(object):
    def __init__(self, fi, fid, parent, stack):
        self.fi = fi
        self.fid = fid
        self.parent = parent     # enclosing frame ids (lexical), tuple
        self.returns = []
        self.yields = []
        self.stack = stack
        self.globals = set()
        self.nonlocals = set()
        self.locals = None


MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort",
            "reverse", "update", "setdefault", "popitem", "add", "discard",
            "difference_update", "intersection_update",
            "symmetric_difference_update", "fill", "resize", "put", "itemset",
            "partition", "setflags", "byteswap", "setfield", "appendleft",
            "popleft", "rotate", "extendleft", "__setitem__", "__delitem__",
            "__iadd__"}

# external callables whose result is a fresh mutable object
ALLOC_EXT = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.array",
             "numpy.zeros_like", "numpy.empty_like", "numpy.ones_like",
             "numpy.full", "numpy.arange", "numpy.linspace", "numpy.eye",
             "numpy.identity", "builtins.list", "builtins.dict",
             "builtins.set", "builtins.bytearray", "builtins.open",
             "builtins.object", "h5py.File", "builtins.iter",
             "copy.copy", "copy.deepcopy", "numpy.copy", "builtins.sorted"}
ALLOC_METH = {"copy", "astype", "tolist", "flatten", "repeat", "split",
              "splitlines", "readlines"}


class Engine(object):
    def __init__(self, prog, inline=None, maxdepth=8, types=None,
                 attr_types=None, elem_types=None, maxevents=60000):
        self.prog = prog
        self.inline = inline or (lambda fi: True)
        self.maxdepth = maxdepth
        self.types = types or {}
        self.attr_types = attr_types or {}
        self.elem_types = elem_types or {}
        self.events = []
        self.loopinfo = {}     # loopid -> {key: (init, [updates])}
        self.loopiter = {}     # loopid -> iter term / cond
        self.contents_log = {}  # obj -> list of entries
        self.passed = set()     # conditions that only say: not raised
        self.ifunset = set()    # entries made by setdefault
        self.objbase = {}       # obj -> (guards, loops) where it was made
        self.fields_log = {}    # obj -> {field: [terms]}
        self.closures = {}
        self.frames = {}
        self.seq = 0
        self.loops = ()
        self.trys = ()
        self.stack = ()        # FuncInfo stack
        self.callstack = ()    # node ids
        self.quiet = 0
        self.undecided = []
        self.maxevents = maxevents
        self.frame = None
        self.frame_count = 0
        self.inlined = set()

    # ---- utilities -------------------------------------------------------
    def uid(self, node, extra=None):
        u = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
             getattr(node, "end_col_offset", 0),
             self.frame.fi.module.name if self.frame else "")
        return (self.callstack, u) if extra is None else \
            (self.callstack, u, extra)

    def ev(self, kind, node, st, **kw):
        if self.quiet:
            return None
        if len(self.events) > self.maxevents:
            raise RuntimeError("event limit")
        self.seq += 1
        e = Event(kind, node, self.frame.fi, st.guards, self.loops, self.seq,
                  self.stack, self.trys, **kw)
        self.events.append(e)
        return e

    def note(self, msg):
        if msg not in self.undecided:
            self.undecided.append(msg)

    # ---- entry -----------------------------------------------------------
    def run(self, fi, args=None, self_cls=None, param_types=None):
        """Analyse ``fi`` with symbolic parameters; returns Result."""
        st = State()
        args = dict(args or {})
        a = fi.node.args
        for i, p in enumerate(fi.params):
            if p not in args:
                t = T("param", p, fi.fullname)
                if (i == 0 and fi.cls is not None and
                        not _has_dec(fi, "staticmethod") and
                        not _has_dec(fi, "classmethod") and
                        fi.name != "__new__"):
                    self.types[t] = self_cls or fi.cls
                if param_types and p in param_types:
                    self.types[t] = param_types[p]
                args[p] = t
        parent = ()
        p = fi.parent
        chain = []
        while p is not None:
            chain.append(p)
            p = p.parent
        for q in reversed(chain):
            fr = self.new_frame(q, parent)
            for pn in q.params:
                st.d[("v", fr.fid, pn)] = T("param", pn, q.fullname)
            # sibling nested functions
            for n in walk_own(q.node):
                if isinstance(n, ast.FunctionDef):
                    st.d[("v", fr.fid, n.name)] = self.mk_closure(
                        n._fi, parent + (fr.fid,))
            parent = parent + (fr.fid,)
        return self.exec_function(fi, args, st, parent, fi.node)

    def new_frame(self, fi, parent, tag=None):
        fid = ("fr", fi.fullname, self.callstack, tag)
        fr = Frame(fi, fid, parent, self.stack)
        self.frames[fid] = fr
        return fr

    def mk_closure(self, fi, chain):
        return T("closure", fi, chain)

    def local_names(self, fi):
        if hasattr(fi, "_locals"):
            return fi._locals
        names = set(fi.params)
        glob = set()
        for n in walk_own(fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                              ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
            elif isinstance(n, ast.comprehension):
                for m in ast.walk(n.target):
                    if isinstance(m, ast.Name):
                        names.add(m.id)
        fi._locals = names - glob
        fi._globaldecl = glob
        return fi._locals

    def exec_function(self, fi, args, st, parent, node):
        """Execute body; returns Result and merged out-state in st."""
        saved = (self.frame, self.stack, self.callstack, self.trys)
        self.stack = self.stack + (fi,)
        self.frame_count += 1
        fr = self.new_frame(fi, parent)
        fr.stack = self.stack
        self.frame = fr
        entry_guards = st.guards
        for k, v in args.items():
            st.d[("v", fr.fid, k)] = v
        out = self.block(fi.body, st)
        if out is not None:
            fr.returns.append((out, NONE, None))
        res = Result(self, fi, fr, entry_guards)
        # combine
        term, fst = None, None
        n = len(entry_guards)
        for rst, rt, rnode in reversed(fr.returns):
            if term is None:
                term, fst = rt, rst
            else:
                cond = guard_term(rst.guards[n:])
                term = self.phi(cond, rt, term)
                fst = self.merge(cond, rst, fst)
        if fi.is_generator():
            g = T("obj", "gen", self.uid(node, "gen"), None)
            if fst is not None:
                fst.d[("c", g)] = tuple(("app", None, y, gg, ll)
                                        for y, gg, ll in fr.yields)
            self.contents_log.setdefault(g, []).extend(
                ("app", None, y, gg, ll) for y, gg, ll in fr.yields)
            term = g
        if fst is not None:
            fst = State(fst.d, entry_guards)
        res.term = term
        res.state = fst
        self.frame, self.stack, self.callstack, self.trys = saved
        return res

    # ---- merging ---------------------------------------------------------
    def phi(self, cond, a, b):
        if a is b:
            return a
        if cond.op == "const":
            return a if cval(cond) else b
        if cond.op == "not":
            return self.phi(cond.args[0], b, a)
        return T("phi", cond, a, b)

    def unset(self, k):
        """value of a state key that one branch did not assign."""
        if k[0] == "v":
            return UNDEF
        if k[0] == "g":
            m = self.prog.modules.get(k[1])
            ent = self.prog.lookup(m, k[2]) if m is not None else None
            return self.entity(ent) if ent is not None else \
                T("unk", "name", k[2])
        return T("attr", k[1], k[2])

    def merge(self, cond, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        d = {}
        for k in s1.d.keys() | s2.d.keys():
            v1 = s1.d.get(k)
            v2 = s2.d.get(k)
            if v1 is v2 or v1 == v2:
                d[k] = v1
            elif k[0] == "c":
                d[k] = _union(v1 or (), v2 or ())
            elif k[0] == "n":
                d[k] = max(v1 or 0, v2 or 0)
            else:
                if v1 is None:
                    v1 = self.unset(k)
                if v2 is None:
                    v2 = self.unset(k)
                if v1 is UNDEF and k[0] == "v":
                    d[k] = v2
                elif v2 is UNDEF and k[0] == "v":
                    d[k] = v1
                else:
                    d[k] = self.phi(cond, v1, v2)
        g = []
        for x, y in zip(s1.guards, s2.guards):
            if x != y:
                break
            g.append(x)
        if self.pathjoin:
            g.extend(self.survivors(s1.guards[len(g):], s2.guards[len(g):]))
        return State(d, tuple(g))

    pathjoin = False

    def survivors(self, a, b):
        """what holds behind a conditional some of whose paths ended"""
        a = [x for x in a if x not in self.passed]
        b = [x for x in b if x not in self.passed]
        if not a or not b or (len(a) == len(b) == 1 and
                              a[0][0] == b[0][0]):
            return []
        x, y = guard_term(a), guard_term(b)
        if x == mk_not(y) or y == mk_not(x):
            return []
        if T("and", *[c if p else mk_not(c) for c, p in a]) == mk_not(y):
            return []
        if len(a) > 4 or len(b) > 4:
            return []
        return [(T("or", x, y), True)]

    # ---- statements ------------------------------------------------------
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("statement %s" % type(s).__name__)
            return st
        if DEBUG:
            return m(s, st)
        loops, trys, quiet = self.loops, self.trys, self.quiet
        frame, stack, cs = self.frame, self.stack, self.callstack
        try:
            return m(s, st)
        except (AnalysisBroken, RecursionError, MemoryError):
            raise
        except RuntimeError as exc:
            if "event limit" in str(exc):
                raise
            self.note("internal: %s" % exc)
        except Exception as exc:   # a construct the engine does not model
            self.note("internal: %r at line %s" % (exc, s.lineno))
        self.loops, self.trys, self.quiet = loops, trys, quiet
        self.frame, self.stack, self.callstack = frame, stack, cs
        FAULTS.append("%s:%s" % (getattr(self.frame.fi, "fullname", ""),
                                 s.lineno))
        return st

    def s_Pass(self, s, st):
        return st

    def s_Expr(self, s, st):
        self.expr(s.value, st)
        return st

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        tgt = s.target
        if isinstance(tgt, ast.Name):
            old = self.name(tgt.id, st, tgt)
            v = self.expr(s.value, st)
            self.ev("aug", s, st, obj=old, name=type(s.op).__name__, val=v)
            if old.op == "obj" and old.args[0] == "list" and \
                    isinstance(s.op, ast.Add):
                self.extend(old, v, st, s)
            else:
                self.setname(tgt.id, T("bin", type(s.op).__name__, old, v), st)
        elif isinstance(tgt, ast.Attribute):
            o = self.expr(tgt.value, st)
            old = self.getattr(o, tgt.attr, st, tgt)
            v = self.expr(s.value, st)
            self.ev("aug", s, st, obj=old, name=type(s.op).__name__, val=v)
            if old.op == "obj" and old.args[0] == "list":
                self.extend(old, v, st, s)
                nv = old
            else:
                nv = T("bin", type(s.op).__name__, old, v)
            self.store_attr(o, tgt.attr, nv, st, s)
        elif isinstance(tgt, ast.Subscript):
            o = self.expr(tgt.value, st)
            i = self.expr(tgt.slice, st)
            old = self.getsub(o, i, st, tgt)
            v = self.expr(s.value, st)
            self.ev("aug", s, st, obj=old, name=type(s.op).__name__, val=v)
            self.store_sub(o, i, T("bin", type(s.op).__name__, old, v), st, s)
        return st

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.expr(s.value, st)
        self.ev("return", s, st, val=v)
        self.frame_top().returns.append((st, v, s))
        return None

    def frame_top(self):
        fr = self.frame
        while getattr(fr, "compof", None) is not None:
            fr = fr.compof
        return fr

    def s_Raise(self, s, st):
        v = None
        if s.exc is not None:
            v = self.expr(s.exc, st)
        if s.cause is not None:
            self.expr(s.cause, st)
        self.ev("raise", s, st, val=v)
        g = st.guards
        for k in range(1, 4):
            if len(g) >= k:
                self.passed.add((guard_term(g[-k:]), False))
        if g:
            self.passed.add((g[-1][0], not g[-1][1]))
        return None

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.ev("assert", s, st, val=c)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            self.delete(t, st, s)
        return st

    def delete(self, t, st, s):
        if isinstance(t, ast.Name):
            self.setname(t.id, UNDEF, st)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, st)
            self.ev("del_attr", s, st, obj=o, name=t.attr)
            cls = self.typeof(o)
            m = cls.find("__delattr__") if isinstance(cls, ClassInfo) else None
            if m is not None:
                self.call_func(m, [o, const(t.attr)], [], s, st, recv=o)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, st)
            i = self.expr(t.slice, st)
            self.ev("del_sub", s, st, obj=o, name=None, val=i)
            cls = self.typeof(o)
            m = cls.find("__delitem__") if isinstance(cls, ClassInfo) else None
            if m is not None:
                self.call_func(m, [o, i], [], s, st, recv=o)
            elif o.op == "obj":
                self.log_content(o, ("del", i, NONE, st.guards, self.loops), st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, st, s)

    def s_If(self, s, st):
        v = fold_py3(s.test)
        if v is not None and not isinstance(s.test, ast.Constant):
            c = const(v)
        else:
            c = self.cond(s.test, st)
        if c.op == "const":
            return self.block(s.body if cval(c) else s.orelse, st)
        s1 = self.block(s.body, st.guard(c, True))
        s2 = self.block(s.orelse, st.guard(c, False))
        return self.merge(c, s1, s2)

    def cond(self, node, st):
        return self.truth(self.expr(node, st))

    def truth(self, t):
        if t.op == "const":
            return const(bool(cval(t)))
        if t.op == "obj" and t.args[0] in ("list", "dict", "set"):
            return t
        return t

    def s_For(self, s, st):
        it = self.expr(s.iter, st)
        loopid = ("loop", self.uid(s))
        self.loopiter[loopid] = it
        lits = self.literal_items(it, st)
        if lits is not None and len(lits) <= 8 and not _has_break(s.body):
            # statically known short sequence: unroll
            cs = self.callstack
            for it_no, x in enumerate(lits):
                self.callstack = cs + (("it", it_no),)
                self.assign(s.target, x, st, s)
                st = self.block(s.body, st)
                self.callstack = cs
                if st is None:
                    return None
            return self.block(s.orelse, st)
        return self.loop(s, st, loopid, it, s.target)

    def s_While(self, s, st):
        loopid = ("loop", self.uid(s))
        self.loopiter[loopid] = T("unk", "while")
        return self.loop(s, st, loopid, None, None)

    def loop(self, s, st, loopid, it, target):
        # discovery pass
        saved_loops = self.loops
        pre = st.copy()
        ctl_saved = getattr(self, "ctl", None)

        def body(state):
            self.ctl = {"break": [], "continue": []}
            self.loops = saved_loops + (loopid,)
            try:
                if target is not None:
                    e = self.elem(it, loopid, state, s)
                    self.assign(target, e, state, s)
                    bs = state
                else:
                    c = self.cond(s.test, state)
                    self.loopiter[loopid] = c
                    bs = state.guard(c, True) if c.op != "const" else state
                out = self.block(s.body, bs)
                cont = self.ctl["continue"]
                for c in cont:
                    out = self.merge(T("unk", "continue", loopid), c, out) \
                        if out is not None else c
                return out, self.ctl["break"]
            finally:
                self.loops = saved_loops

        self.quiet += 1
        fr = self.frame_top()
        nret, ny = len(fr.returns), len(fr.yields)
        cl = {k: list(v) for k, v in self.contents_log.items()}
        out, brk = body(st.copy())
        self.contents_log = cl
        del fr.returns[nret:]
        del fr.yields[ny:]
        self.quiet -= 1
        ends = [x for x in [out] + brk if x is not None]
        changed = set()
        for e in ends:
            for k in e.d:
                if k[0] in "cn":
                    continue
                v0 = pre.d.get(k)
                if v0 is not e.d[k]:
                    changed.add(k)
        info = self.loopinfo.setdefault(loopid, {})
        head = pre.copy()
        for k in sorted(changed, key=repr):
            if k in pre.d:
                lt = T("loop", loopid, k)
                info[k] = (pre.d[k], [])
                self.types.setdefault(lt, self.typeof(pre.d[k]))
                head.d[k] = lt
            elif k[0] == "f":
                lt = T("loop", loopid, k)
                info[k] = (T("attr", k[1], k[2]), [])
                head.d[k] = lt
        out, brk = body(head.copy())
        ends = [x for x in [out] + brk if x is not None]
        for e in ends:
            for k, (i0, ups) in info.items():
                v = e.d.get(k)
                if v is not None and v is not T("loop", loopid, k):
                    if v not in ups:
                        ups.append(v)
        # exit state: loop terms for carried keys, plus body-defined names
        ex = head.copy()
        ex.guards = pre.guards
        for e in ends:
            for k, v in e.d.items():
                if k[0] == "c":
                    ex.d[k] = _union(ex.d.get(k, ()), v)
                elif k not in ex.d:
                    ex.d[k] = v
        nobody = not brk
        self.ctl = ctl_saved
        if s.orelse:
            e2 = self.block(s.orelse, ex.copy())
            if brk:
                # loop left by break: else skipped
                b = None
                for x in brk:
                    b = x if b is None else self.merge(
                        T("unk", "break", loopid), x, b)
                b = State(b.d, pre.guards)
                if e2 is None:
                    return b
                return self.merge(T("unk", "broke", loopid), b, e2)
            return e2
        if target is None and isinstance(s.test, ast.Constant) and \
                s.test.value and nobody:
            return None
        return ex

    def s_Break(self, s, st):
        self.ev("break", s, st)
        if getattr(self, "ctl", None) is not None:
            self.ctl["break"].append(st)
        return None

    def s_Continue(self, s, st):
        if getattr(self, "ctl", None) is not None:
            self.ctl["continue"].append(st)
        return None

    def s_Try(self, s, st):
        pre = st.copy()
        u = self.uid(s)
        saved = self.trys
        self.trys = saved + (s,)
        nret = len(self.frame_top().returns)
        body = self.block(s.body, st.copy())
        self.trys = saved
        last = body
        if last is None:
            rets = self.frame_top().returns[nret:]
            last = State(rets[-1][0].d, pre.guards) if rets else pre
        outs = []
        excs = []
        if body is not None:
            b = body
            if s.orelse:
                b = self.block(s.orelse, b)
            normal = b
        else:
            normal = None
        for i, h in enumerate(s.handlers):
            et = self.expr(h.type, pre.copy()) if h.type is not None else \
                T("ent", Ext("builtins.BaseException"))
            ex = T("exc", u, i, et)
            excs.append(ex)
            hs = self.merge(T("unk", "excpoint", u), last.copy(), pre.copy())
            hs = State(hs.d, pre.guards).guard(ex, True)
            if h.name:
                self.setname(h.name, T("excval", ex), hs)
            r = self.block(h.body, hs)
            outs.append((ex, r))
        result = normal
        live_h = [(ex, r) for ex, r in outs if r is not None]
        if not live_h and result is not None and excs:
            # handlers all leave: normal path knows no exception happened
            pass
        for ex, r in live_h:
            result = self.merge(ex, r, result) if result is not None else r
        if s.finalbody:
            if result is None:
                # still executed on the way out
                self.block(s.finalbody, State(last.d, pre.guards))
                return None
            result = self.block(s.finalbody, result)
        return result

    s_TryStar = s_Try

    def s_With(self, s, st):
        for item in s.items:
            c = self.expr(item.context_expr, st)
            self.ev("with", s, st, val=c)
            v = c if c.op == "call" and c.args[0].op == "ent" and \
                getattr(c.args[0].args[0], "name", "") in (
                    "builtins.open", "codecs.open", "io.open", "h5py.File",
                    ) else T("enter", c)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, s)
        return self.block(s.body, st)

    def s_FunctionDef(self, s, st):
        fi = s._fi
        t = self.mk_closure(fi, self.frame.parent + (self.frame.fid,))
        t = self.decorate(t, fi, st)
        self.setname(s.name, t, st)
        return st

    def decorate(self, t, fi, st):
        for d in reversed(fi.decorators):
            if isinstance(d, ast.Name) and d.id in (
                    "property", "staticmethod", "classmethod"):
                continue
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter"):
                continue
            dt = self.expr(d, st)
            t = self.call(dt, [t], [], d, st)
        return t

    def s_ClassDef(self, s, st):
        self.setname(s.name, T("ent", s._ci), st)
        return st

    def s_Global(self, s, st):
        self.frame.globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st):
        self.frame.nonlocals.update(s.names)
        return st

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            ent = self.prog.modules.get(tgt) or Ext(tgt)
            self.setname(nm, T("ent", ent), st)
        return st

    def s_ImportFrom(self, s, st):
        base = self.prog._from_base(self.frame.fi.module, s)
        for a in s.names:
            if a.name == "*":
                continue
            ent = self.prog._deref(("from", base, a.name)) or \
                Ext("%s.%s" % (base, a.name))
            self.setname(a.asname or a.name, T("ent", ent), st)
        return st

    def s_Match(self, s, st):
        self.note("match statement")
        subj = self.expr(s.subject, st)
        res = None
        for i, c in enumerate(s.cases):
            cond = T("match", subj, self.uid(c.pattern, i)) \
                if hasattr(c.pattern, "lineno") else T("unk", "case", i)
            st2 = st.guard(cond, True)
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None)
                if isinstance(nm, str):
                    self.setname(nm, T("sub", subj, T("unk", nm)), st2)
            r = self.block(c.body, st2)
            res = self.merge(cond, r, res) if res is not None else r
        return self.merge(T("unk", "nomatch"), st, res) if res else st

    # ---- assignment ------------------------------------------------------
    def setname(self, name, v, st):
        fr = self.frame
        if name in fr.globals:
            self.ev("assign_global", fr.fi.node, st, name=name, val=v,
                    obj=T("ent", fr.fi.module))
            st.d[("g", fr.fi.module.name, name)] = v
            return
        if name in fr.nonlocals or (fr.fi and hasattr(fr.fi, "_globaldecl")
                                    and name in fr.fi._globaldecl):
            for pid in reversed(fr.parent):
                if ("v", pid, name) in st.d:
                    st.d[("v", pid, name)] = v
                    return
        st.d[("v", fr.fid, name)] = v

    def assign(self, tgt, v, st, node):
        if isinstance(tgt, ast.Name):
            self.setname(tgt.id, v, st)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            lits = self.literal_items(v, st)
            starred = [i for i, e in enumerate(tgt.elts)
                       if isinstance(e, ast.Starred)]
            if starred:
                for i, e in enumerate(tgt.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, T("sub", v, T("slice", const(i),
                                    NONE, NONE)), st, node)
                    elif i < starred[0]:
                        self.assign(e, self.getsub(v, const(i), st, node), st,
                                    node)
                    else:
                        self.assign(e, self.getsub(
                            v, const(i - len(tgt.elts)), st, node), st, node)
                return
            for i, e in enumerate(tgt.elts):
                if lits is not None and i < len(lits):
                    self.assign(e, lits[i], st, node)
                else:
                    self.assign(e, self.getsub(v, const(i), st, node), st,
                                node)
        elif isinstance(tgt, ast.Attribute):
            o = self.expr(tgt.value, st)
            self.store_attr(o, tgt.attr, v, st, node)
        elif isinstance(tgt, ast.Subscript):
            o = self.expr(tgt.value, st)
            i = self.expr(tgt.slice, st)
            self.store_sub(o, i, v, st, node)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, st, node)

    def set_field(self, o, name, v, st):
        st.d[("f", o, name)] = v
        self.fields_log.setdefault(o, {}).setdefault(name, [])
        if v not in self.fields_log[o][name]:
            self.fields_log[o][name].append(v)
        if o.op == "phi":
            for br in o.args[1:]:
                old = st.d.get(("f", br, name))
                if old is None:
                    old = T("attr", br, name)
                st.d[("f", br, name)] = T("phi", o.args[0], v, old) \
                    if br is o.args[1] else T("phi", o.args[0], old, v)

    def store_attr(self, o, name, v, st, node):
        cls = self.typeof(o)
        if isinstance(cls, ClassInfo):
            setter = cls.find_setter(name)
            if setter is not None and self.can_inline(setter):
                self.ev("set_prop", node, st, obj=o, name=name, val=v)
                self.call_func(setter, [o, v], [], node, st, recv=o)
                return
        self.ev("store_attr", node, st, obj=o, name=name, val=v)
        self.set_field(o, name, v, st)
        if o.op == "ent" and isinstance(o.args[0], Module):
            st.d[("g", o.args[0].name, name)] = v

    def store_sub(self, o, i, v, st, node):
        # obj.__dict__["x"] = v
        if o.op == "attr" and o.args[1] == "__dict__" and is_const(i) and \
                isinstance(cval(i), str):
            self.ev("store_attr", node, st, obj=o.args[0], name=cval(i), val=v)
            self.set_field(o.args[0], cval(i), v, st)
            return
        cls = self.typeof(o)
        if isinstance(cls, ClassInfo):
            m = cls.find("__setitem__")
            if m is not None:
                self.ev("store_sub", node, st, obj=o, name="__setitem__",
                        args=(i,), val=v)
                if self.can_inline(m):
                    self.call_func(m, [o, i, v], [], node, st, recv=o)
                return
        self.ev("store_sub", node, st, obj=o, name=None, args=(i,), val=v)
        self.log_content(o, ("set", i, v, st.guards, self.loops), st)

    def log_content(self, o, entry, st):
        cur = st.d.get(("c", o), ())
        if entry not in cur:
            st.d[("c", o)] = cur + (entry,)
        lg = self.contents_log.setdefault(o, [])
        if entry not in lg:
            lg.append(entry)

    def extend(self, o, v, st, node):
        lits = self.literal_items(v, st)
        if lits is not None:
            for x in lits:
                self.log_content(o, ("app", None, x, st.guards, self.loops), st)
        else:
            self.log_content(o, ("ext", None, v, st.guards, self.loops), st)

    # ---- names -----------------------------------------------------------
    def name(self, nm, st, node):
        fr = self.frame
        if nm in fr.globals:
            k = ("g", fr.fi.module.name, nm)
            if k in st.d:
                return st.d[k]
            return self.modname(fr.fi.module, nm, st)
        k = ("v", fr.fid, nm)
        if k in st.d:
            return st.d[k]
        for pid in reversed(fr.parent):
            k = ("v", pid, nm)
            if k in st.d:
                return st.d[k]
        return self.modname(fr.fi.module, nm, st)

    def modname(self, module, nm, st):
        k = ("g", module.name, nm)
        if k in st.d:
            return st.d[k]
        ent = self.prog.lookup(module, nm)
        if ent is None:
            if nm in BUILTINS:
                return T("ent", Ext("builtins." + nm))
            return T("unk", "name", nm)
        return self.entity(ent)

    def entity(self, ent):
        if isinstance(ent, ModVar):
            if len(ent.nodes) == 1 and ent.nodes[0] is not None and \
                    not self.prog.rebound(ent):
                n = ent.nodes[0]
                if isinstance(n, ast.Constant):
                    return const(n.value)
                if isinstance(n, ast.UnaryOp) and isinstance(
                        n.op, ast.USub) and isinstance(n.operand,
                                                       ast.Constant):
                    return const(-n.operand.value)
                if isinstance(n, ast.Lambda) and hasattr(n, "_fi"):
                    return T("ent", n._fi)
                if isinstance(n, (ast.Name, ast.Attribute)):
                    r = self.prog.resolve_expr(ent.module, n)
                    if r is not None and r is not ent:
                        return self.entity(r)
        return T("ent", ent)

    # ---- types -----------------------------------------------------------
    def typeof(self, t, depth=0):
        if t in self.types:
            return self.types[t]
        if depth > 6:
            return None
        if t.op == "obj" and t.args[0] == "inst":
            return t.args[2]
        if t.op == "call":
            f = t.args[0]
            if f.op == "ent" and isinstance(f.args[0], ClassInfo):
                return f.args[0]
            if f.op == "attr" and f.args[1] == "__class__":
                return self.typeof(f.args[0], depth + 1)
            if f.op == "attr":
                h = self.attr_types.get(("call", f.args[1]))
                if h is not None:
                    return h(self, t) if callable(h) and not isinstance(
                        h, ClassInfo) else h
        if t.op == "phi":
            a = self.typeof(t.args[1], depth + 1)
            b = self.typeof(t.args[2], depth + 1)
            if a is not None and b is not None and a is b:
                return a
            if a is not None and t.args[2] is NONE:
                return a
            if b is not None and t.args[1] is NONE:
                return b
            return None
        if t.op == "attr":
            c = self.typeof(t.args[0], depth + 1)
            if isinstance(c, ClassInfo):
                for k in c.mro():
                    h = self.attr_types.get((k.name, t.args[1]))
                    if h is not None:
                        return h
            return None
        if t.op in ("elem", "sub", "val"):
            c = self.typeof(t.args[0], depth + 1)
            if isinstance(c, ClassInfo):
                h = self.elem_types.get(c.name)
                if callable(h) and not isinstance(h, ClassInfo):
                    return h(t)
                return h
            b = t.args[0]
            if b.op == "call" and b.args[0].op == "attr" and \
                    b.args[0].args[1] in ("values", "view"):
                c = self.typeof(b.args[0].args[0], depth + 1)
                if isinstance(c, ClassInfo):
                    h = self.elem_types.get(c.name)
                    if callable(h) and not isinstance(h, ClassInfo):
                        return h(T("sub", b.args[0].args[0], T("unk", "v")))
                    return h
        return None

    # ---- expressions -----------------------------------------------------
    def expr(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note("expression %s" % type(n).__name__)
            return T("unk", type(n).__name__, self.uid(n))
        return m(n, st)

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return T("ent", Ext("builtins.Ellipsis"))
        return const(n.value)

    def e_Name(self, n, st):
        return self.name(n.id, st, n)

    def e_NamedExpr(self, n, st):
        v = self.expr(n.value, st)
        self.setname(n.target.id, v, st)
        return v

    def e_Attribute(self, n, st):
        o = self.expr(n.value, st)
        return self.getattr(o, n.attr, st, n)

    def getattr(self, o, name, st, node):
        k = ("f", o, name)
        if k in st.d:
            return st.d[k]
        if o.op == "ent":
            e = o.args[0]
            if isinstance(e, (Module, Ext)):
                gk = ("g", e.name, name)
                if gk in st.d:
                    return st.d[gk]
                r = self.prog.attr_of(e, name)
                if r is not None:
                    return self.entity(r)
                if isinstance(e, Module):
                    return T("attr", o, name)
            if isinstance(e, ClassInfo):
                f = e.find(name)
                if f is not None:
                    return T("ent", f)
                av = e.find_attr(name)
                if av is not None and isinstance(av[1], ast.Constant):
                    return const(av[1].value)
                return T("attr", o, name)
        if o.op == "phi" and ("f", o.args[1], name) in st.d and \
                ("f", o.args[2], name) in st.d:
            return self.phi(o.args[0], st.d[("f", o.args[1], name)],
                            st.d[("f", o.args[2], name)])
        cls = self.typeof(o)
        if isinstance(cls, ClassInfo):
            f = cls.find(name)
            if f is not None:
                if cls.is_property(name):
                    if self.can_inline(f):
                        return self.call_func(f, [o], [], node, st, recv=o)
                    return T("attr", o, name)
                return T("bound", o, f)
            av = cls.find_attr(name)
            if av is not None and isinstance(av[1], ast.Constant) and (
                    o.op == "obj" or self.prog.attr_fixed(cls, name)):
                return const(av[1].value)
        return T("attr", o, name)

    def e_Subscript(self, n, st):
        o = self.expr(n.value, st)
        i = self.expr(n.slice, st)
        return self.getsub(o, i, st, n)

    def same_sequence(self, a, b, st):
        a, b = self.seq_source(a, st), self.seq_source(b, st)
        return a is b

    def seq_source(self, t, st):
        while True:
            if t.op == "call" and t.args[0].op == "ent" and getattr(
                    t.args[0].args[0], "name", "") in (
                        "builtins.list", "builtins.tuple") and \
                    len(t.args[1]) == 1 and not t.args[2]:
                t = t.args[1][0]
                continue
            if t.op == "obj" and t.args[0] == "list":
                c = st.d.get(("c", t))
                if c is not None and len(c) == 1 and c[0][0] == "ext" and \
                        not c[0][4]:
                    t = c[0][2]
                    continue
            return t

    def getsub(self, o, i, st, node):
        if i.op == "idx":
            it = self.loopiter.get(i.args[0])
            if it is not None and it.op == "call" and \
                    it.args[0].op == "ent" and len(it.args[1]) >= 1:
                nm = getattr(it.args[0].args[0], "name", "")
                src = it.args[1][0]
                if nm == "builtins.range" and src.op == "call" and \
                        src.args[1]:
                    src = src.args[1][0]
                elif nm != "builtins.enumerate":
                    src = None
                if src is not None and self.same_sequence(o, src, st) and \
                        not any(e.kind == "store_sub" and e.obj is o
                                for e in self.events):
                    return self.elem(o, i.args[0], st, node)
        if is_const(i) and isinstance(cval(i), int) and cval(i) >= 0 and \
                o.op == "call" and o.args[0].op == "ent" and getattr(
                    o.args[0].args[0], "name", "") in (
                        "builtins.list", "builtins.tuple") and \
                len(o.args[1]) == 1 and not o.args[2] and \
                o.args[1][0].op in ("call", "sub", "param", "attr"):
            return self.getsub(o.args[1][0], i, st, node)
        if o.op == "tuple" and is_const(i) and isinstance(cval(i), int):
            try:
                x = o.args[cval(i)]
                if x.op != "star" and not any(
                        y.op == "star" for y in o.args):
                    return x
            except IndexError:
                pass
        if o.op == "obj" and o.args[0] in ("list", "dict"):
            if o.args[0] == "list" and is_const(i) and \
                    isinstance(cval(i), int):
                lits = self.literal_items(o, st)
                if lits is not None and -len(lits) <= cval(i) < len(lits):
                    return lits[cval(i)]
            if o.args[0] == "dict":
                got = None
                for (k, key, v, g, l) in st.d.get(("c", o), ()):
                    if k == "set" and key is i:
                        if (o, key, v) not in self.ifunset:
                            got = v
                    elif k not in ("set", "lit"):
                        got = None
                if got is not None:
                    return got
        if o.op == "tuple" and i.op == "slice":
            try:
                sl = slice(*[cval(x) if is_const(x) else _bad()
                             for x in i.args])
                if not any(y.op == "star" for y in o.args):
                    return T("tuple", *o.args[sl])
            except (ValueError, TypeError):
                pass
        if o.op == "const" and is_const(i):
            try:
                return const(cval(o)[cval(i)])
            except Exception:
                pass
        if o.op == "phi" and o.args[1].op == "tuple" and \
                o.args[2].op == "tuple":
            return self.phi(o.args[0], self.getsub(o.args[1], i, st, node),
                            self.getsub(o.args[2], i, st, node))
        if o.op == "phi" and is_const(i) and isinstance(cval(i), int) and \
                ("tuple" in (o.args[1].op, o.args[2].op)):
            return self.phi(o.args[0], self.getsub(o.args[1], i, st, node),
                            self.getsub(o.args[2], i, st, node))
        cls = self.typeof(o)
        if isinstance(cls, ClassInfo):
            m = cls.find("__getitem__")
            if m is not None and self.can_inline(m):
                return self.call_func(m, [o, i], [], node, st, recv=o)
        return T("sub", o, i)

    def e_Slice(self, n, st):
        f = lambda x: NONE if x is None else self.expr(x, st)
        return T("slice", f(n.lower), f(n.upper), f(n.step))

    def e_Tuple(self, n, st):
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.expr(e.value, st)
                lits = self.literal_items(v, st)
                if lits is not None:
                    items.extend(lits)
                else:
                    items.append(T("star", v))
            else:
                items.append(self.expr(e, st))
        return T("tuple", *items)

    def e_List(self, n, st):
        o = T("obj", "list", self.uid(n), None)
        ents = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                ents.append(("ext", None, self.expr(e.value, st), (), ()))
            else:
                ents.append(("lit", None, self.expr(e, st), (), ()))
        self.reset(o, ents, st)
        return o

    def reset(self, o, ents, st):
        st.d[("c", o)] = tuple(ents)
        self.objbase.setdefault(o, (st.guards, self.loops))
        lg = self.contents_log.setdefault(o, [])
        for e in ents:
            if e not in lg:
                lg.append(e)

    def e_Set(self, n, st):
        o = T("obj", "set", self.uid(n), None)
        self.reset(o, [("lit", None, self.expr(e, st), (), ())
                       for e in n.elts], st)
        return o

    def e_Dict(self, n, st):
        o = T("obj", "dict", self.uid(n), None)
        ents = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                ents.append(("ext", None, self.expr(v, st), (), ()))
            else:
                kt = self.expr(k, st)
                ents.append(("set", kt, self.expr(v, st), (), ()))
        self.reset(o, ents, st)
        return o

    def comp(self, n, st, kind, elts):
        o = T("obj", kind, self.uid(n), None)
        saved = (self.frame, self.loops)
        fr = Frame(self.frame.fi, ("comp", self.frame.fid, self.uid(n)),
                   self.frame.parent + (self.frame.fid,), self.stack)
        fr.compof = self.frame
        fr.globals = self.frame.globals
        self.frame = fr
        self.frames[fr.fid] = fr
        cur = st.copy()
        base = len(st.guards)
        it0 = None
        if len(n.generators) == 1 and not n.generators[0].ifs and \
                kind in ("list", "gen", "dict"):
            # statically known short sequence: unroll
            g = n.generators[0]
            it0 = self.expr(g.iter, cur)
            lits = self.literal_items(it0, cur)
            if lits is not None and len(lits) <= 8:
                ents = []
                cs = self.callstack
                for it_no, x in enumerate(lits):
                    self.callstack = cs + (("it", it_no),)
                    self.assign(g.target, x, cur, n)
                    vals = [self.expr(e, cur) for e in elts]
                    self.callstack = cs
                    ents.append(("lit", None, vals[0], (), ())
                                if kind != "dict" else
                                ("set", vals[0], vals[1], (), ()))
                self.frame, self.loops = saved
                for k, v in cur.d.items():
                    if k[0] in ("f", "c") and st.d.get(k) is not v:
                        st.d[k] = v
                self.reset(o, ents, st)
                return o
        for gi, g in enumerate(n.generators):
            it = it0 if it0 is not None else self.expr(g.iter, cur)
            loopid = ("loop", self.uid(g.target, "c%d" % gi))
            self.loopiter[loopid] = it
            self.loops = self.loops + (loopid,)
            self.assign(g.target, self.elem(it, loopid, cur, n), cur, n)
            for c in g.ifs:
                ct = self.cond(c, cur)
                if ct.op != "const":
                    cur = cur.guard(ct, True)
        vals = [self.expr(e, cur) for e in elts]
        gs, ls = cur.guards[base:], self.loops[len(saved[1]):]
        self.frame, self.loops = saved
        # effects on the heap inside the comprehension survive
        for k, v in cur.d.items():
            if k[0] in ("f", "c") and st.d.get(k) is not v:
                st.d[k] = v
        if kind == "dict":
            self.reset(o, [("set", vals[0], vals[1], gs, ls)], st)
        else:
            self.reset(o, [("app", None, vals[0], gs, ls)], st)
        return o

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list", [n.elt])

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "gen", [n.elt])

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set", [n.elt])

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict", [n.key, n.value])

    def e_BinOp(self, n, st):
        a = self.expr(n.left, st)
        b = self.expr(n.right, st)
        return self.binop(type(n.op).__name__, a, b, st, n)

    def binop(self, op, a, b, st, n):
        if is_const(a) and is_const(b):
            try:
                r = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y,
                     "Mult": lambda x, y: x * y,
                     "Div": lambda x, y: x / y,
                     "Pow": lambda x, y: x ** y if abs(y) < 64 else _bad(),
                     "Mod": lambda x, y: x % y if not isinstance(x, str)
                     else _bad(),
                     "FloorDiv": lambda x, y: x // y}[op](cval(a), cval(b))
                if not isinstance(r, (str, bytes)) or len(r) < 4096:
                    return const(r)
            except Exception:
                pass
        if op == "Add":
            if a.op == "tuple" and b.op == "tuple":
                return T("tuple", *(a.args + b.args))
            la = a.op == "obj" and a.args[0] == "list"
            lb = b.op == "obj" and b.args[0] == "list"
            if la or lb:
                o = T("obj", "list", self.uid(n), None)
                ents = []
                for x, l in ((a, la), (b, lb)):
                    if l:
                        ents.extend(st.d.get(("c", x), ()))
                    else:
                        ents.append(("ext", None, x, (), ()))
                self.reset(o, ents, st)
                return o
        if op == "Mult" and a.op == "tuple" and is_const(b) and \
                isinstance(cval(b), int) and 0 <= cval(b) < 9:
            return T("tuple", *(a.args * cval(b)))
        return T("bin", op, a, b)

    def e_UnaryOp(self, n, st):
        v = self.expr(n.operand, st)
        if isinstance(n.op, ast.Not):
            return mk_not(self.truth(v))
        if is_const(v):
            try:
                if isinstance(n.op, ast.USub):
                    return const(-cval(v))
                if isinstance(n.op, ast.UAdd):
                    return const(+cval(v))
            except TypeError:
                pass
        return T("un", type(n.op).__name__, v)

    def e_BoolOp(self, n, st):
        vals = []
        isand = isinstance(n.op, ast.And)
        cur = st
        for v in n.values:
            t = self.expr(v, cur)
            tt = self.truth(t)
            if tt.op == "const":
                if bool(cval(tt)) != isand:
                    vals.append(t)
                    break
                if v is n.values[-1]:
                    vals.append(t)
                continue
            vals.append(t)
            cur = cur.guard(tt, isand)
        for k, v in cur.d.items():
            if st.d.get(k) is not v:
                st.d[k] = v
        if not vals:
            return const(isand)
        if len(vals) == 1:
            return vals[0]
        return T("and" if isand else "or", *vals)

    def e_Compare(self, n, st):
        left = self.expr(n.left, st)
        parts = []
        for op, c in zip(n.ops, n.comparators):
            r = self.expr(c, st)
            parts.append(self.compare(type(op).__name__, left, r, st, n))
            left = r
        if len(parts) == 1:
            return parts[0]
        return T("and", *parts)

    def compare(self, op, a, b, st, n):
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                if op in ("Is", "IsNot") and (x is None or y is None or
                                              isinstance(x, bool)):
                    return const((x is y) == (op == "Is"))
                if op == "Eq":
                    return const(x == y)
                if op == "NotEq":
                    return const(x != y)
                if op == "Lt":
                    return const(x < y)
                if op == "Gt":
                    return const(x > y)
                if op == "In":
                    return const(x in y)
            except TypeError:
                pass
        if op in ("Is", "IsNot") and (a is NONE or b is NONE):
            o = b if a is NONE else a
            if o.op in ("obj", "tuple", "closure") or (
                    o.op == "ent" and not isinstance(o.args[0], ModVar)):
                return const(op == "IsNot")
        if op == "IsNot":
            return mk_not(T("cmp", "Is", a, b))
        if op == "NotIn":
            return mk_not(self.compare("In", a, b, st, n))
        if op == "NotEq":
            return mk_not(T("cmp", "Eq", a, b))
        if op == "In":
            cls = self.typeof(b)
            if isinstance(cls, ClassInfo):
                m = cls.find("__contains__")
                if m is not None and self.can_inline(m) and \
                        self.inline_dunder(m):
                    return self.call_func(m, [b, a], [], n, st, recv=b)
        if op == "GtE":
            return T("cmp", "LtE", b, a)
        if op == "Gt":
            return T("cmp", "Lt", b, a)
        return T("cmp", op, a, b)

    def inline_dunder(self, m):
        return False

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c.op == "const":
            return self.expr(n.body if cval(c) else n.orelse, st)
        s1 = st.guard(c, True)
        s2 = st.guard(c, False)
        a = self.expr(n.body, s1)
        b = self.expr(n.orelse, s2)
        m = self.merge(c, s1, s2)
        st.d.clear()
        st.d.update(m.d)
        return self.phi(c, a, b)

    def e_Lambda(self, n, st):
        if not hasattr(n, "_fi"):
            return T("unk", "lambda", self.uid(n))
        return self.mk_closure(n._fi, self.frame.parent + (self.frame.fid,))

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.expr(v, st))
        return T("fstr", *parts)

    def e_FormattedValue(self, n, st):
        v = self.expr(n.value, st)
        spec = self.expr(n.format_spec, st) if n.format_spec else const("")
        return T("fmtval", v, const(n.conversion), spec)

    def e_Starred(self, n, st):
        return T("star", self.expr(n.value, st))

    def e_Yield(self, n, st):
        v = NONE if n.value is None else self.expr(n.value, st)
        self.ev("yield", n, st, val=v)
        self.frame_top().yields.append((v, st.guards, self.loops))
        return T("unk", "sent", self.uid(n))

    def e_YieldFrom(self, n, st):
        v = self.expr(n.value, st)
        lid = ("loop", self.uid(n))
        self.loopiter[lid] = v
        e = self.elem(v, lid, st, n)
        self.ev("yield", n, st, val=e)
        self.frame_top().yields.append((e, st.guards, self.loops + (lid,)))
        return T("unk", "sent", self.uid(n))

    def e_Await(self, n, st):
        return self.expr(n.value, st)

    # ---- iteration -------------------------------------------------------
    def literal_items(self, t, st):
        """Known finite contents of a tuple / freshly built list."""
        if t.op == "tuple" and not any(a.op == "star" for a in t.args):
            return list(t.args)
        if t.op == "obj" and t.args[0] in ("list", "gen"):
            c = st.d.get(("c", t))
            if c is not None and all(
                    e[0] in ("lit", "app") and not e[4] and
                    self.guards_hold(e[3], st) for e in c):
                return [e[2] for e in c]
        return None

    def guards_hold(self, gs, st):
        return all(g in st.guards for g in gs)

    def elem(self, it, loopid, st, node):
        """Term for one element of ``it`` in loop ``loopid``."""
        if it.op == "call":
            f, args = it.args[0], it.args[1]
            nm = getattr(f.args[0], "name", "") if f.op == "ent" else ""
            if nm == "builtins.enumerate" and args:
                return T("tuple", T("idx", loopid),
                         self.elem(args[0], loopid, st, node))
            if nm in ("builtins.zip", "itertools.zip_longest") and \
                    not any(a.op == "star" for a in args):
                return T("tuple", *[self.elem(a, loopid, st, node)
                                    for a in args])
            if nm in ("builtins.reversed", "builtins.iter", "builtins.list",
                      "builtins.tuple", "builtins.sorted", "builtins.set") \
                    and len(args) >= 1:
                return self.elem(args[0], loopid, st, node)
            if nm == "builtins.range":
                if len(args) == 1 and args[0].op == "call" and \
                        args[0].args[0].op == "ent" and getattr(
                            args[0].args[0].args[0], "name", "") == \
                        "builtins.len":
                    return T("idx", loopid)
                return T("elem", it, loopid)
            d = self.dict_call(f, args, it.args[2]) \
                if self.pathjoin else None
            if d is not None:
                x = self.dict_item(d[1], loopid, st)
                return {"i": x, "k": x.args[0], "v": x.args[1]}[d[0]]
            if f.op == "attr" and f.args[1] in ("items", "iteritems") and \
                    not args:
                d = f.args[0]
                return self.dict_item(d, loopid, st)
            if f.op == "attr" and f.args[1] in ("keys", "iterkeys") and \
                    not args:
                return T("key", f.args[0], loopid)
            if f.op == "attr" and f.args[1] in ("values", "itervalues") and \
                    not args:
                return self.dict_item(f.args[0], loopid, st).args[1]
        if it.op == "phi":
            return self.phi(it.args[0],
                            self.elem(it.args[1], loopid, st, node),
                            self.elem(it.args[2], loopid, st, node))
        if it.op == "obj" and it.args[0] in ("list", "gen", "set"):
            c = st.d.get(("c", it))
            if c is not None and len(c) == 1 and c[0][0] == "app":
                return c[0][2]
            if c is not None and len(c) == 1 and c[0][0] == "ext":
                return self.elem(c[0][2], loopid, st, node)
        return T("elem", it, loopid)

    def dict_call(self, f, args, kw):
        """items, keys or values of one of the program's dictionaries"""
        e = f.args[0] if f.op == "ent" else None
        if not isinstance(e, FuncInfo) or e.cls is None or e.name not in (
                "items", "iteritems", "keys", "values"):
            return None
        if "builtins.dict" not in e.cls.ext_bases():
            return None
        a = list(args) + [v for k, v in kw]
        if len(a) != 1:
            return None
        return e.name.lstrip("ter")[0], a[0]

    def dict_item(self, d, loopid, st):
        if d.op == "obj" and d.args[0] == "dict":
            c = st.d.get(("c", d), ())
            if len(c) == 1 and c[0][0] == "set":
                return T("tuple", c[0][1], c[0][2])
        k = T("key", d, loopid)
        return T("tuple", k, T("sub", d, k))

    # ---- calls -----------------------------------------------------------
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return T("super", self.uid(n))
        f = self.expr(n.func, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st)
                lits = self.literal_items(v, st)
                if lits is not None:
                    args.extend(lits)
                else:
                    args.append(T("star", v))
            else:
                args.append(self.expr(a, st))
        kw = []
        for k in n.keywords:
            v = self.expr(k.value, st)
            if k.arg is None:
                exp = None
                if v.op == "obj" and v.args[0] == "dict":
                    c = st.d.get(("c", v), ())
                    if all(e[0] == "set" and is_const(e[1]) and
                           isinstance(cval(e[1]), str) and not e[4]
                           for e in c):
                        exp = [(cval(e[1]), e[2]) for e in c]
                if exp is not None:
                    kw.extend(exp)
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        return self.call(f, args, kw, n, st)

    def can_inline(self, fi):
        if fi in self.stack or len(self.stack) > 30:
            return False
        if not known(fi):
            return True
        return (len([f for f in self.stack if known(f)]) < self.maxdepth and
                self.inline(fi))

    def call(self, f, args, kw, n, st):
        if f.op == "phi":
            s1 = st.guard(f.args[0], True)
            s2 = st.guard(f.args[0], False)
            a = self.call(f.args[1], args, kw, n, s1)
            b = self.call(f.args[2], args, kw, n, s2)
            m = self.merge(f.args[0], s1, s2)
            st.d.clear()
            st.d.update(m.d)
            return self.phi(f.args[0], a, b)
        if f.op == "bound":
            return self.call_func(f.args[1], [f.args[0]] + list(args), kw, n,
                                  st, recv=f.args[0])
        if f.op == "closure":
            return self.call_func(f.args[0], args, kw, n, st,
                                  chain=f.args[1], fterm=f)
        if f.op == "ent":
            e = f.args[0]
            if isinstance(e, FuncInfo):
                if e.cls is not None and _has_dec(e, "classmethod"):
                    args = [T("ent", e.cls)] + list(args)
                return self.call_func(e, args, kw, n, st, fterm=f)
            if isinstance(e, ClassInfo):
                return self.instantiate(e, args, kw, n, st)
            if isinstance(e, Ext):
                return self.call_ext(e.name, f, args, kw, n, st)
        if f.op == "attr":
            return self.call_method(f.args[0], f.args[1], f, args, kw, n, st)
        return self.opaque(f, args, kw, n, st)

    def opaque(self, f, args, kw, n, st, alloc=False):
        kw = tuple(sorted(kw, key=lambda x: x[0]))
        t = T("call", f, tuple(args), kw, self.uid(n) if alloc else None)
        self.ev("call", n, st, obj=f, args=tuple(args), kw=kw, res=t)
        if self.pathjoin and not alloc and self.takes(f, args):
            # the same call again gives the next one
            k = st.d.get(("n", t), 0)
            st.d["n", t] = k + 1
            if k:
                return T("nth", t, str(k))
        return t

    def takes(self, f, args):
        """the call takes something off what it is given"""
        if f.op == "attr":
            return f.args[1] in TAKERS
        if f.op == "call" and f.args[0].op in ("ent", "closure"):
            e = f.args[0].args[0]
            return isinstance(e, FuncInfo) and \
                e.fullname in takers(self.prog)[1]
        if f.op in ("ent", "closure"):
            e = f.args[0]
            if isinstance(e, Ext):
                return e.name == "builtins.next"
            return isinstance(e, FuncInfo) and \
                e.fullname in takers(self.prog)[0]
        return False

    def instantiate(self, ci, args, kw, n, st):
        ext = ci.ext_bases()
        init = ci.find("__init__")
        new = ci.find("__new__")
        if init is not None and new is None and "numpy.ndarray" not in ext \
                and self.can_inline(init):
            o = T("obj", "inst", self.uid(n), ci)
            self.ev("new", n, st, obj=o, args=tuple(args),
                    kw=tuple(sorted(kw, key=lambda x: x[0])), val=T("ent", ci))
            # forget fields of a previous incarnation of this site
            for k in [k for k in st.d if k[0] == "f" and k[1] is o]:
                del st.d[k]
            self.call_func(init, [o] + list(args), kw, n, st, recv=o)
            return o
        kw = tuple(sorted(kw, key=lambda x: x[0]))
        t = T("call", T("ent", ci), tuple(args), kw, self.uid(n))
        self.ev("call", n, st, obj=T("ent", ci), args=tuple(args), kw=kw,
                res=t)
        return t

    def call_func(self, fi, args, kw, n, st, recv=None, chain=None,
                  fterm=None):
        if fterm is None:
            fterm = T("ent", fi)
        if recv is not None and _has_dec(fi, "staticmethod"):
            args = args[1:]
        decs = [d for d in fi.decorators if not _plain_dec(d)]
        if decs and fterm.op != "closure" and fi.parent is None:
            # call through the decorated value
            ft = self.decorated(fi, st)
            if ft is not None:
                return self.call(ft, args, kw, n, st)
        if not self.can_inline(fi):
            return self.opaque(fterm, args, kw, n, st)
        bound, ok = self.bind(fi, args, kw, n, st)
        if not ok:
            return self.opaque(fterm, args, kw, n, st)
        if chain is None:
            chain = ()
        saved = self.callstack
        self.callstack = self.callstack + (
            (getattr(n, "lineno", 0), getattr(n, "col_offset", 0), fi.qual),)
        ctl = getattr(self, "ctl", None)
        self.ev("enter", n, st, obj=fterm, args=tuple(args),
                kw=tuple(sorted(kw, key=lambda x: x[0])))
        # exec_function restores callstack to the value at its entry
        res = self.exec_function(fi, bound, st.copy(), chain, n)
        self.callstack = saved
        self.ctl = ctl
        self.inlined.add(fi)
        if res.state is None:
            # never returns normally
            self.ev("noreturn", n, st, obj=fterm)
            st.guards = st.guards + ((T("unk", "noreturn"), True),)
            return T("bottom")
        st.d.clear()
        st.d.update(res.state.d)
        return res.term

    def decorated(self, fi, st):
        """Value of a decorated module-level function or method."""
        inner = T("closure", fi, ())
        saved = (self.frame, self.stack)
        fr = Frame(fi, ("deco", fi.fullname), (), self.stack)
        fr.fi = fi
        self.frame = fr
        self.frames[fr.fid] = fr
        t = inner
        try:
            for d in reversed(fi.decorators):
                if _plain_dec(d):
                    continue
                dt = self._deco_expr(d, fi, st)
                if dt is None:
                    return None
                t = self.call(dt, [t], [], d, st)
        finally:
            self.frame, self.stack = saved
        if t.op == "closure" and t.args[0] is not fi:
            return t
        return None

    def _deco_expr(self, d, fi, st):
        if isinstance(d, ast.Name):
            if fi.cls is not None and d.id in fi.cls.methods:
                return T("ent", fi.cls.methods[d.id])
            ent = self.prog.lookup(fi.module, d.id)
            if isinstance(ent, FuncInfo):
                return T("ent", ent)
            return None
        if isinstance(d, ast.Call):
            f = self._deco_expr(d.func, fi, st)
            if f is None or not isinstance(f.args[0], FuncInfo):
                return None
            return self.call(f, [self.expr(a, st) for a in d.args],
                             [(k.arg, self.expr(k.value, st))
                              for k in d.keywords if k.arg], d, st)
        return None

    def bind(self, fi, args, kw, n, st):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if any(x.op == "star" for x in args):
            # a trailing *x whose callee takes *y
            if not (a.vararg and args[-1].op == "star" and
                    not any(x.op == "star" for x in args[:-1]) and
                    len(args) - 1 >= len(pos)):
                # positional parameters come from unknown positions
                lead = []
                for x in args:
                    if x.op == "star":
                        break
                    lead.append(x)
                stars = args[len(lead):]
                if len(stars) != 1:
                    return None, False
                for i, x in enumerate(lead):
                    if i < len(pos):
                        out[pos[i]] = x
                given = set(k for k, _ in kw)
                for i in range(len(lead), len(pos)):
                    if pos[i] in given:
                        break
                    di = i - (len(pos) - len(a.defaults))
                    v = T("sub", stars[0].args[0], const(i - len(lead)))
                    out[pos[i]] = v
                if a.vararg:
                    out[a.vararg.arg] = T(
                        "sub", stars[0].args[0],
                        T("slice", const(max(0, len(pos) - len(lead))), NONE,
                          NONE))
                args = []
        extra = args[len(pos):]
        for p, v in zip(pos, args):
            out[p] = v
        if a.vararg and a.vararg.arg not in out:
            if len(extra) == 1 and extra[0].op == "star":
                out[a.vararg.arg] = extra[0].args[0]
            else:
                out[a.vararg.arg] = T("tuple", *extra)
        elif extra and not a.vararg:
            return None, False
        names = set(pos) | set(x.arg for x in a.kwonlyargs)
        rest = []
        dstar = None
        for k, v in kw:
            if k == "**":
                dstar = v
            elif k in names:
                out[k] = v
            else:
                rest.append((k, v))
        if rest and not a.kwarg:
            return None, False
        if a.kwarg:
            if not rest and dstar is not None:
                out[a.kwarg.arg] = dstar
            else:
                o = T("obj", "dict", self.uid(n, "kw"), None)
                ents = [("set", const(k), v, (), ()) for k, v in rest]
                if dstar is not None:
                    ents.append(("ext", None, dstar, (), ()))
                self.reset(o, ents, st)
                out[a.kwarg.arg] = o
        # defaults
        dpos = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dpos[x.arg] = d
        for p in list(pos) + [x.arg for x in a.kwonlyargs]:
            if p not in out:
                if p in dpos:
                    dv = self.default_value(fi, dpos[p], st)
                    if dstar is not None:
                        dv = T("phi", T("cmp", "In", const(p), dstar),
                               T("sub", dstar, const(p)), dv)
                    out[p] = dv
                elif dstar is not None:
                    out[p] = T("sub", dstar, const(p))
                else:
                    return None, False
        return out, True

    def default_value(self, fi, node, st):
        if isinstance(node, ast.Constant):
            return const(node.value)
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(fi.module, node)
            if r is not None:
                return self.entity(r)
        if isinstance(node, (ast.List, ast.Dict, ast.Set)):
            return T("defobj", fi.fullname, node.lineno, node.col_offset)
        if isinstance(node, ast.Lambda) and hasattr(node, "_fi"):
            return T("ent", node._fi)
        if isinstance(node, ast.UnaryOp):
            try:
                return const(ast.literal_eval(node))
            except ValueError:
                pass
        if isinstance(node, ast.Tuple):
            return T("tuple", *[self.default_value(fi, e, st)
                                for e in node.elts])
        return T("unk", "default", fi.fullname, node.lineno, node.col_offset)

    # ---- external callables ---------------------------------------------
    def call_ext(self, name, f, args, kw, n, st):
        short = name.split(".")[-1]
        star = any(a.op == "star" for a in args)
        if name == "functools.wraps":
            return T("ent", Ext("identity"))
        if name == "identity" and args:
            return args[0]
        if name == "functools.partial" and args:
            return T("partial", args[0], tuple(args[1:]),
                     tuple(sorted(kw, key=lambda x: x[0])))
        if name == "builtins.getattr" and len(args) >= 2 and \
                is_const(args[1]) and isinstance(cval(args[1]), str):
            v = self.getattr(args[0], cval(args[1]), st, n)
            if len(args) == 3:
                return T("phi", T("hasattr", args[0], args[1]), v, args[2])
            return v
        if name == "builtins.hasattr" and len(args) == 2:
            return T("hasattr", args[0], args[1])
        if name == "builtins.setattr" and len(args) == 3:
            if is_const(args[1]) and isinstance(cval(args[1]), str):
                self.store_attr(args[0], cval(args[1]), args[2], st, n)
            else:
                self.ev("store_attr", n, st, obj=args[0], name=None,
                        val=args[2], args=(args[1],))
            return NONE
        if name == "builtins.delattr" and len(args) == 2:
            self.ev("del_attr", n, st, obj=args[0],
                    name=cval(args[1]) if is_const(args[1]) else None)
            return NONE
        if name == "builtins.isinstance" and len(args) == 2:
            return T("isinstance", args[0], args[1])
        if name == "builtins.type" and len(args) == 1:
            return T("attr", args[0], "__class__")
        if name == "builtins.len" and len(args) == 1:
            lits = self.literal_items(args[0], st)
            if lits is not None and args[0].op == "tuple":
                return const(len(lits))
        if name == "builtins.bool" and len(args) == 1:
            return args[0]
        if name in ("builtins.tuple", "builtins.list") and not star:
            if not args:
                if short == "tuple":
                    return T("tuple")
                o = T("obj", "list", self.uid(n), None)
                self.reset(o, [], st)
                return o
            lits = self.literal_items(args[0], st)
            if short == "tuple" and lits is not None:
                return T("tuple", *lits)
            if short == "list":
                o = T("obj", "list", self.uid(n), None)
                if lits is not None:
                    self.reset(o, [("lit", None, x, (), ()) for x in lits], st)
                elif args[0].op == "obj" and ("c", args[0]) in st.d and \
                        args[0].args[0] in ("list", "gen", "set"):
                    self.reset(o, st.d[("c", args[0])], st)
                else:
                    self.reset(o, [("ext", None, args[0], (), ())], st)
                return o
        if name == "builtins.dict" and not star:
            o = T("obj", "dict", self.uid(n), None)
            ents = []
            if args:
                ents.append(("ext", None, args[0], (), ()))
            for k, v in kw:
                if k == "**":
                    ents.append(("ext", None, v, (), ()))
                else:
                    ents.append(("set", const(k), v, (), ()))
            self.reset(o, ents, st)
            return o
        if name == "builtins.set" and not star:
            o = T("obj", "set", self.uid(n), None)
            self.reset(o, [("ext", None, a, (), ()) for a in args], st)
            return o
        if name in ("builtins.map",) and len(args) == 2 and not star:
            lid = ("loop", self.uid(n))
            self.loopiter[lid] = args[1]
            saved = self.loops
            self.loops = saved + (lid,)
            e = self.call(args[0], [self.elem(args[1], lid, st, n)], [], n, st)
            self.loops = saved
            o = T("obj", "gen", self.uid(n, "map"), None)
            self.reset(o, [("app", None, e, (), (lid,))], st)
            return o
        if name in ("builtins.sorted", "builtins.min", "builtins.max") or \
                name == "builtins.filter":
            for k, v in kw:
                if k == "key" and v.op in ("closure",) and args:
                    lid = ("loop", self.uid(n, "key"))
                    self.loopiter[lid] = args[0]
                    saved = self.loops
                    self.loops = saved + (lid,)
                    kv = self.call(v, [self.elem(args[0], lid, st, n)], [],
                                   n, st)
                    self.loops = saved
                    kw = [(a, b) for a, b in kw if a != "key"] + [("key", kv)]
        return self.opaque(f, args, kw, n, st, alloc=name in ALLOC_EXT)

    def call_method(self, o, name, f, args, kw, n, st):
        # partials
        if o.op == "super":
            return self.call_super(o, name, args, kw, n, st)
        if o.op == "ent" and isinstance(o.args[0], ClassInfo):
            # Class.method where method is inherited from outside
            return self.opaque(f, args, kw, n, st)
        if o.op == "obj" and o.args[0] in ("list", "set", "dict"):
            kind = o.args[0]
            g, l = st.guards, self.loops
            if name in MUTATORS:
                self.ev("mut", n, st, obj=o, name=name, args=tuple(args))
            if name in ("append", "add") and len(args) == 1:
                self.log_content(o, ("app", None, args[0], g, l), st)
                return NONE
            if name == "insert" and len(args) == 2:
                self.log_content(o, ("ins", args[0], args[1], g, l), st)
                return NONE
            if name in ("extend", "update") and len(args) == 1 and \
                    kind != "dict":
                self.extend(o, args[0], st, n)
                return NONE
            if name == "update" and kind == "dict":
                for a in args:
                    self.log_content(o, ("ext", None, a, g, l), st)
                for k, v in kw:
                    self.log_content(
                        o, ("set", const(k), v, g, l) if k != "**" else
                        ("ext", None, v, g, l), st)
                return NONE
            if name == "get" and kind == "dict" and args and \
                    is_const(args[0]):
                r = None
                for (k, key, v, g0, l0) in st.d.get(("c", o), ()):
                    if k == "set" and key is args[0]:
                        if (o, key, v) not in self.ifunset:
                            r = v
                    elif k not in ("set", "lit"):
                        r = None
                if r is not None:
                    return r
            if name == "setdefault" and kind == "dict" and len(args) == 2:
                self.log_content(o, ("set", args[0], args[1], g, l), st)
                self.ifunset.add((o, args[0], args[1]))
                return T("call", f, tuple(args), (), None)
            if name == "copy" and not args:
                o2 = T("obj", kind, self.uid(n, "copy"), None)
                self.reset(o2, st.d.get(("c", o), ()), st)
                return o2
            if name in ("pop", "remove", "clear", "sort", "reverse",
                        "discard", "popitem"):
                self.log_content(o, ("op:" + name,
                                     args[0] if args else None, NONE, g, l),
                                 st)
        else:
            if name in MUTATORS:
                self.ev("mut", n, st, obj=o, name=name, args=tuple(args))
            if o.op in ("call", "obj") and args:
                g, l = st.guards, self.loops
                if name in ("append", "add") and len(args) == 1:
                    self.log_content(o, ("app", None, args[0], g, l), st)
                elif name == "insert" and len(args) == 2:
                    self.log_content(o, ("ins", args[0], args[1], g, l), st)
                elif name in ("extend", "update") and len(args) == 1:
                    self.log_content(o, ("ext", None, args[0], g, l), st)
        return self.opaque(f, args, kw, n, st, alloc=name in ALLOC_METH)

    def call_super(self, o, name, args, kw, n, st):
        fi = self.frame_top().fi
        cls = fi.cls
        selfname = fi.positional[0] if fi.positional else None
        recv = self.name(selfname, st, n) if selfname else T("unk", "self")
        if cls is not None:
            for c in cls.mro()[1:]:
                if name in c.methods:
                    return self.call_func(c.methods[name], [recv] + list(args),
                                          kw, n, st, recv=recv)
            ext = cls.ext_bases()
            f = T("ent", Ext((ext[0] if ext else "builtins.object") + "." +
                             name))
            return self.opaque(f, [recv] + list(args), kw, n, st)
        return self.opaque(T("attr", o, name), args, kw, n, st)


TAKERS = ("pop", "popleft", "popitem", "readline", "read", "__next__")


def takers(prog):
    """(functions that take elements off an argument, functions that return
    such a function)"""
    if hasattr(prog, "_takers"):
        return prog._takers
    out, make = prog._takers = set(), set()
    fis = list(prog.all_functions())
    more = True
    while more:
        more = False
        names = {x.split(".")[-1] for x in out}
        makers = {x.split(".")[-1] for x in make}
        for fi in fis:
            own = set(fi.params) - {"self", "cls"}
            for n in walk_own(fi.node):
                if isinstance(n, ast.Return) and n.value is not None and \
                        fi.fullname not in make:
                    v = n.value
                    if isinstance(v, ast.Name) and \
                            fi.fullname + "." + v.id in out or \
                            isinstance(v, ast.Call) and \
                            isinstance(v.func, ast.Name) and \
                            v.func.id in makers:
                        make.add(fi.fullname)
                        more = True
                if not isinstance(n, ast.Call) or fi.fullname in out:
                    continue
                f = n.func
                a = [x.id for x in n.args if isinstance(x, ast.Name)]
                if isinstance(f, ast.Attribute) and f.attr in TAKERS and \
                        isinstance(f.value, ast.Name) and f.value.id in own \
                        or isinstance(f, ast.Name) and f.id == "next" and \
                        a and a[0] in own or set(a) & own and \
                        (isinstance(f, (ast.Name, ast.Attribute)) and
                         (f.id if isinstance(f, ast.Name) else f.attr) in
                         names or isinstance(f, ast.Call) and
                         isinstance(f.func, ast.Name) and
                         f.func.id in makers):
                    out.add(fi.fullname)
                    more = True
    return out, make


class Result(object):
    def __init__(self, eng, fi, frame, entry_guards):
        self.eng = eng
        self.fi = fi
        self.frame = frame
        self.entry_guards = entry_guards
        self.term = None
        self.state = None

    @property
    def events(self):
        return self.eng.events

    @property
    def returns(self):
        """(term, guards, state, node)"""
        return [(t, s.guards, s, n) for s, t, n in self.frame.returns]


def _has_dec(fi, name):
    return any(isinstance(d, ast.Name) and d.id == name
               for d in fi.decorators)


def _plain_dec(d):
    if isinstance(d, ast.Name) and d.id in ("property", "staticmethod",
                                            "classmethod", "contextmanager",
                                            "cached_property"):
        return True
    if isinstance(d, ast.Attribute) and d.attr in (
            "setter", "getter", "deleter", "wraps", "cached_property",
            "contextmanager"):
        return True
    return False


def _union(a, b):
    out = list(a)
    for x in b:
        if x not in out:
            out.append(x)
    return tuple(out)


def _has_break(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Break, ast.Continue, ast.Return)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _bad():
    raise ValueError


# ---------------------------------------------------------------------------
# queries
# ---------------------------------------------------------------------------

def subterms(eng, t, seen=None, through_heap=True, control=True):
    """Transitive value-flow closure of ``t`` (data and gating conditions)."""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and not control:
            todo.extend(x.args[1:])
        elif x.op == "loop":
            lid, key = x.args
            info = eng.loopinfo.get(lid, {}).get(key)
            if info:
                todo.append(info[0])
                todo.extend(info[1])
            if control and lid in eng.loopiter:
                todo.append(eng.loopiter[lid])
        elif x.op in ("idx",):
            lid = x.args[0]
            if lid in eng.loopiter:
                todo.append(eng.loopiter[lid])
        elif x.op == "closure":
            pass
        else:
            todo.extend(a for a in x.args if isinstance(a, (T, tuple)))
        if through_heap:
            for e in eng.contents_log.get(x, ()):
                if e[1] is not None:
                    todo.append(e[1])
                todo.append(e[2])
                if control:
                    for g in e[3]:
                        todo.append(g[0])
                    for lid in e[4]:
                        if lid in eng.loopiter:
                            todo.append(eng.loopiter[lid])
            for fs in eng.fields_log.get(x, {}).values():
                todo.extend(fs)
    return seen


def alternatives(t, limit=64):
    """All phi-alternatives of a term."""
    out, todo = [], [t]
    while todo and len(out) < limit:
        x = todo.pop()
        if x.op == "phi":
            todo.extend([x.args[2], x.args[1]])
        elif x not in out:
            out.append(x)
    return out


def cases(t, limit=64):
    """(alternative, conditions that select it) of a gated term; the parts of
    a conjunction that must hold are listed one by one."""
    out, todo = [], [(t, ())]
    while todo and len(out) < limit:
        x, g = todo.pop()
        if x.op == "phi":
            todo.append((x.args[2], g + parts_of(x.args[0], False)))
            todo.append((x.args[1], g + parts_of(x.args[0], True)))
        else:
            out.append((x, g))
    return out


def parts_of(c, pol):
    if c.op == "not":
        return parts_of(c.args[0], not pol)
    if c.op == "and" and pol or c.op == "or" and not pol:
        return tuple(y for a in c.args for y in parts_of(a, pol))
    return ((c, pol),)


def strip(t, memo=None):
    """Term without allocation-site identities (for structural comparison)."""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(strip(x, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    memo[t] = t
    if t.op == "call":
        r = T("call", strip(t.args[0], memo), strip(t.args[1], memo),
              tuple((k, strip(v, memo)) for k, v in t.args[2]), None)
    else:
        r = T(t.op, *[strip(a, memo) if isinstance(a, (T, tuple)) and
                      not (t.op in ("loop", "elem", "idx", "key") and
                           isinstance(a, tuple))
                      else a for a in t.args])
    memo[t] = r
    return r
