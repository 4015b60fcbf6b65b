"""Files are closed on every exit; handles of the caller stay open."""
import ast

from ..lib import loc
from ..model import AnalysisBroken, ClassInfo, Ext, FuncInfo, walk_own

RULE = (
    "Every call that opens a file (open, io.open, codecs.open, h5py.File, "
    "PdfPages and every function of the package that returns a freshly "
    "opened file) is followed to its owner: it must be the context of a with "
    "statement, or be bound to a name that a finally clause (or with) closes "
    "with nothing that can raise in between, or be returned to the caller. A "
    "parameter that may be the caller's open handle is neither closed nor "
    "used as the context of a with statement. Functions that read open their "
    "files for reading only; functions that save open them for writing from "
    "the start.")
MIN = 8

OPEN = {"builtins.open": (1, "r"), "io.open": (1, "r"),
        "codecs.open": (1, "r"), "h5py.File": (1, "a"),
        "gzip.open": (1, "rb"), "bz2.open": (1, "rb"),
        "zipfile.ZipFile": (1, "r"), "tarfile.open": (1, "r"),
        "os.fdopen": (1, "r"), "io.FileIO": (1, "r"),
        "matplotlib.backends.backend_pdf.PdfPages": (None, "w"),
        "tempfile.NamedTemporaryFile": (0, "w"),
        "tempfile.TemporaryFile": (0, "w")}
SKIP = ("hftools._external", "hftools.testing", "hftools.file_formats.slask")
READERS = {"list", "tuple", "sorted", "enumerate", "iter", "next", "zip",
           "map", "filter", "set", "sum", "len", "readlines", "array"}


def check(prog, rep, tier):
    rep.parts((opened, (prog, rep)), (handles, (prog, rep)),
              (modes, (prog, rep)))


def funcs(prog):
    for fi in prog.all_functions():
        if isinstance(fi.node, ast.Lambda) or ".tests" in fi.module.name or \
                fi.module.name.startswith(SKIP):
            continue
        yield fi


def scopes(prog):
    """(FuncInfo or None, module, own nodes, body) of functions and of module
    level code (without the __main__ section)"""
    for fi in funcs(prog):
        yield fi, fi.module, fi.node.body
    for m in prog.modules.values():
        if m.name.startswith(SKIP) or ".tests" in m.name or \
                m.name.endswith(".tests"):
            continue
        body = [s for s in m.tree.body if not isinstance(
            s, (ast.FunctionDef, ast.ClassDef)) and not is_main(s)]
        yield None, m, body


def is_main(s):
    return isinstance(s, ast.If) and "__main__" in ast.dump(s.test)


def own(body):
    """nodes of the statements that belong to this scope"""
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def local_names(fi):
    if fi is None:
        return set()
    out = set(fi.params)
    for n in walk_own(fi.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def target(prog, m, node, fi):
    f = node.func
    if isinstance(f, ast.Name) and fi is not None and f.id in local_names(fi):
        return None
    if isinstance(f, ast.Name) and f.id == "open" and \
            prog.lookup(m, "open") is None:
        return Ext("builtins.open")
    return prog.resolve_expr(m, f)


def parents(body):
    up = {}
    for s in body:
        for n in ast.walk(s):
            for c in ast.iter_child_nodes(n):
                up[c] = n
    return up


def opener(prog, m, node, fi, fact):
    """(mode position, default mode) when the call opens a file"""
    t = target(prog, m, node, fi)
    if isinstance(t, Ext) and t.name in OPEN:
        return OPEN[t.name]
    if isinstance(t, FuncInfo) and t.fullname in fact:
        return fact[t.fullname]
    return None


def factories(prog):
    """functions that return a file they have opened"""
    out = {}
    for _ in range(3):
        n = len(out)
        for fi in funcs(prog):
            up = None
            for c in walk_own(fi.node):
                if isinstance(c, ast.Call) and opener(
                        prog, fi.module, c, fi, out):
                    up = up or parents(fi.node.body)
                    p = up.get(c)
                    if isinstance(p, ast.Return):
                        out[fi.fullname] = (None, None)
        if len(out) == n:
            break
    return out


def opened(prog, rep):
    fact = factories(prog)
    count = {}
    for fi, m, body in scopes(prog):
        up = None
        for c in own(body):
            if not isinstance(c, ast.Call):
                continue
            if not opener(prog, m, c, fi, fact):
                continue
            up = up or parents(body)
            who = fi.fullname if fi else m.name
            if fi:
                rep.analysed(fi)
            count[who] = count.get(who, 0) + 1
            con = who + ("" if count[who] == 1 else " #%d" % count[who])
            ok, why = owner(prog, fi, m, body, up, c)
            rep.ob("closed", con, ok, "%s:%d" % (m.rel, c.lineno), why)


def chain(up, n):
    while n is not None:
        yield n
        n = up.get(n)


def owner(prog, fi, m, body, up, c):
    n, p = c, up.get(c)
    while isinstance(p, (ast.IfExp, ast.BoolOp)):
        n, p = p, up.get(p)
    if isinstance(p, ast.withitem) and p.context_expr is n:
        return True, ""
    if isinstance(p, (ast.Return, ast.Yield)):
        if isinstance(p, ast.Yield):
            return False, "the yielded file is not closed by anyone"
        return True, "returned to the caller"
    if isinstance(p, ast.Call) and n in p.args:
        nm = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(
            p.func, "id", "")
        if nm in ("closing", "enter_context", "push"):
            q = up.get(p)
            if nm != "closing" or isinstance(q, ast.withitem):
                return True, ""
            return None, "closing outside of a with statement"
        if nm in READERS:
            return False, "nobody closes the file passed to %s" % nm
        t = prog.resolve_expr(m, p.func) if isinstance(
            p.func, (ast.Name, ast.Attribute)) else None
        ts = [t] if isinstance(t, FuncInfo) else []
        shift = 0
        if not ts and isinstance(p.func, ast.Attribute) and nm not in \
                ("append", "add", "extend", "register", "callback"):
            ts = [c2.methods[nm] for c2 in prog.all_classes()
                  if nm in c2.methods]
            shift = 1
        i = p.args.index(n) + shift
        if ts and all(i < len(t.positional) and not closes_name(
                t.node.body, t.positional[i]) and not keeps(
                    t.node.body, t.positional[i]) for t in ts):
            return False, "the opened file is passed to %s, which does not " \
                "close it" % nm
        return None, "opened file passed on"
    if isinstance(p, ast.Attribute):
        return False, "the file is used without being closed"
    if isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
        return False, "the file iterated over is never closed"
    if isinstance(p, ast.Expr):
        return False, "the opened file is dropped"
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(
            p.targets[0], ast.Name):
        return bound(fi, body, up, p, p.targets[0].id)
    if isinstance(p, ast.NamedExpr):
        return None, "assignment expression"
    return None, "owner of the file not found"


def closes_name(stmts, name):
    """some statement closes the named file"""
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == "close" and \
                    isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == name:
                return True
            if isinstance(n, ast.withitem) and any(
                    isinstance(x, ast.Name) and x.id == name
                    for x in ast.walk(n.context_expr)):
                return True
    return False


def keeps(stmts, name):
    """the file is stored somewhere"""
    return any(escapes(s, name) or any(
        isinstance(n, ast.Assign) and any(
            isinstance(x, ast.Name) and x.id == name
            for x in ast.walk(n.value)) and any(
            isinstance(t, ast.Attribute) for t in n.targets)
        for n in ast.walk(s)) for s in stmts)


def may_raise(s):
    return any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.For,
                              ast.Raise, ast.Assert, ast.Yield, ast.While,
                              ast.Attribute, ast.Import, ast.ImportFrom,
                              ast.ListComp, ast.GeneratorExp, ast.DictComp))
               for n in ast.walk(s))


def following(up, body, stmt):
    """statements executed after stmt in the same function, block by block,
    from the innermost block outwards; stops at loops"""
    s = stmt
    while True:
        p = up.get(s)
        blocks = [body] if p is None else [
            getattr(p, f) for f in ("body", "orelse", "finalbody")
            if isinstance(getattr(p, f, None), list)]
        if isinstance(p, ast.Try):
            blocks += [h.body for h in p.handlers]
        for b in blocks:
            if any(x is s for x in b):
                i = [k for k, x in enumerate(b) if x is s][0]
                for x in b[i + 1:]:
                    yield x, s
                break
        if p is None or isinstance(p, (ast.For, ast.While)):
            return
        s = p


def enclosing_finally(up, stmt, name):
    """a try around the assignment closes the file in its finally clause"""
    n = stmt
    while n in up:
        p = up[n]
        if isinstance(p, ast.Try) and any(x is n for x in p.body) and \
                closes_name(p.finalbody, name):
            return True
        n = p
    return False


def bound(fi, body, up, assign, name):
    if enclosing_finally(up, assign, name):
        return True, ""
    gap = None
    for s, _ in following(up, body, assign):
        if isinstance(s, ast.With) and any(
                isinstance(x, ast.Name) and x.id == name
                for it in s.items for x in ast.walk(it.context_expr)):
            if gap is None:
                return True, ""
            return False, "line %d can raise before the file is closed" % \
                gap.lineno
        if isinstance(s, ast.Try):
            if closes_name(s.finalbody, name):
                if gap is None:
                    return True, ""
                return False, "line %d can raise before the file is " \
                    "closed" % gap.lineno
            hs = [h for h in s.handlers if h.type is None or isinstance(
                h.type, ast.Name) and h.type.id == "BaseException"]
            if any(closes_name(h.body, name) for h in hs):
                return (True, "") if gap is None else (None, "")
        if closing_stmt(s, name):
            if gap is None:
                return True, ""
            return False, "the file stays open when line %d raises" % \
                gap.lineno
        if escapes(s, name):
            return None, "the file is handed over"
        if may_raise(s) and gap is None:
            gap = s
    if any(escapes(s, name) for s in body):
        return None, "the file is handed over"
    if closes_name(body, name):
        return None, "close not found on the path"
    return False, "the file bound to %r is never closed" % name


def closing_stmt(s, name):
    """the statement closes the file (possibly under a condition)"""
    if isinstance(s, ast.Expr):
        return closes_name([s], name)
    if isinstance(s, ast.If):
        return closes_name(s.body, name) or closes_name(s.orelse, name)
    return False


def escapes(s, name):
    for n in ast.walk(s):
        if isinstance(n, ast.Return) and isinstance(
                n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and \
                n.value.id == name:
            return True
        if isinstance(n, (ast.Tuple, ast.List, ast.Dict)) and any(
                isinstance(x, ast.Name) and x.id == name
                for x in ast.iter_child_nodes(n)) and isinstance(
                    getattr(n, "ctx", ast.Load()), ast.Load):
            return True
    return False


# -- handles of the caller ----------------------------------------------------

def handles(prog, rep):
    for fi in funcs(prog):
        if not fi.module.name.startswith(("hftools.file_formats",
                                          "hftools.plotting",
                                          "hftools.dataset")):
            continue
        ps = set(fi.params) - {"self", "cls"}
        stored = {n.id for n in walk_own(fi.node) if isinstance(n, ast.Name)
                  and isinstance(n.ctx, ast.Store)}
        ps -= stored
        if not ps:
            continue
        n = 0
        up = None
        for c in walk_own(fi.node):
            nm = None
            if isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Attribute) and c.func.attr == "close" and \
                    isinstance(c.func.value, ast.Name):
                nm = c.func.value.id
            elif isinstance(c, ast.withitem) and isinstance(
                    c.context_expr, ast.Name):
                nm = c.context_expr.id
            elif isinstance(c, ast.withitem) and isinstance(
                    c.context_expr, ast.Call) and len(
                    c.context_expr.args) == 1 and isinstance(
                    c.context_expr.args[0], ast.Name) and getattr(
                    c.context_expr.func, "attr", getattr(
                        c.context_expr.func, "id", "")) == "closing":
                nm = c.context_expr.args[0].id
            if nm in ps:
                n += 1
                rep.bad("caller-handle", fi, loc(fi, getattr(
                    c, "context_expr", c)), "the file passed in as %r is "
                    "closed" % nm)
        uses = any(isinstance(c, ast.Call) and isinstance(
            c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and
            c.func.value.id in ps and c.func.attr in (
                "write", "read", "readline", "create_group", "create_dataset")
            for c in walk_own(fi.node)) or any(
            x in ("filehandle", "h5file", "fil", "stream") for x in ps)
        if uses and not n:
            rep.holds("caller-handle", fi, loc(fi))
            rep.analysed(fi)


# -- modes ---------------------------------------------------------------------

def ctx_openers(prog):
    """context managers of the package that open a file with a mode
    parameter: {fullname: (position, default)}"""
    out = {}
    for fi in funcs(prog):
        if not fi.is_generator:
            continue
        for c in walk_own(fi.node):
            if isinstance(c, ast.Call):
                o = opener(prog, fi.module, c, fi, {})
                if o and o[0] is not None:
                    k = [x for x in c.keywords if x.arg == "mode"]
                    v = k[0].value if k else (
                        c.args[o[0]] if len(c.args) > o[0] else None)
                    if isinstance(v, ast.Name) and v.id in fi.params:
                        d = fi.defaults.get(v.id)
                        out[fi.fullname] = (
                            fi.positional.index(v.id), v.id,
                            d.value if isinstance(d, ast.Constant) else None)
    return out


def modes(prog, rep):
    ctx = ctx_openers(prog)
    for fi in funcs(prog):
        kind = role(fi)
        if kind is None:
            continue
        for c in walk_own(fi.node):
            if not isinstance(c, ast.Call):
                continue
            t = target(prog, fi.module, c, fi)
            if isinstance(t, FuncInfo) and t.fullname in ctx:
                pos, nm, d = ctx[t.fullname]
            else:
                o = opener(prog, fi.module, c, fi, {})
                if not o or o[0] is None:
                    continue
                pos, d = o
                nm = "mode"
            k = [x for x in c.keywords if x.arg == nm]
            v = k[0].value if k else (c.args[pos] if len(c.args) > pos
                                      else None)
            if v is None:
                mode = d
            elif isinstance(v, ast.Constant):
                mode = v.value
            elif isinstance(v, ast.Name) and isinstance(
                    fi.defaults.get(v.id), ast.Constant):
                mode = fi.defaults[v.id].value
            else:
                mode = None
            if not isinstance(mode, str):
                rep.unsure("mode", fi, loc(fi, c), "mode not constant")
                continue
            if kind == "read":
                ok = not set(mode) & set("wax+")
                why = "a file that is read is opened with mode %r" % mode
            else:
                ok = "w" in mode or "x" in mode
                why = "a file that is saved is opened with mode %r" % mode
            rep.analysed(fi)
            rep.ob("mode", fi, ok, loc(fi, c), "" if ok else why)


def role(fi):
    nm = fi.name.lstrip("_")
    cl = fi.cls.name if fi.cls is not None else ""
    if nm.startswith(("read", "is_", "load")) or cl.startswith("Read") or \
            nm == "read_from_cache":
        return "read"
    if nm.startswith(("save", "write")) and not nm.startswith("append"):
        return "save"
    return None
