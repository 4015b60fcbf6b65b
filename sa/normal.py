"""Syntax normalisation before the analysis: loops written with an explicit
iterator or counter become the ``for`` loops they spell out.

    it = iter(X)                          i = 0
    while True:                           while i < len(S):
        try: v = next(it)                     BODY
        except StopIteration: break           i += 1
        BODY

Both rewrites keep the meaning (the counter is only rewritten when the body
neither continues nor assigns it)."""
import ast


def _names_stored(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(
                    x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


def _own(nodes, kinds):
    """break/continue statements that belong to this loop"""
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.For, ast.While)):
            todo.extend(n.orelse)
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _true(t):
    return isinstance(t, ast.Constant) and bool(t.value)


def _call(e, name, n=1):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id == name and len(e.args) == n and not e.keywords


def _uses(nodes, name):
    return sum(1 for n in nodes for x in ast.walk(n)
               if isinstance(x, ast.Name) and x.id == name)


def _iterator(block, i):
    """while True with next(it); it = iter(X) earlier in the block"""
    w = block[i]
    if not (isinstance(w, ast.While) and _true(w.test) and w.body and
            not w.orelse):
        return False
    t = w.body[0]
    if not (isinstance(t, ast.Try) and len(t.body) == 1 and
            not t.orelse and not t.finalbody and len(t.handlers) == 1):
        return False
    h = t.handlers[0]
    if not (isinstance(h.type, ast.Name) and h.type.id == "StopIteration" and
            len(h.body) == 1 and isinstance(h.body[0], ast.Break)):
        return False
    a = t.body[0]
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and
            _call(a.value, "next") and isinstance(a.value.args[0], ast.Name)):
        return False
    it = a.value.args[0].id
    for j in range(i - 1, -1, -1):
        s = block[j]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Name) and \
                s.targets[0].id == it:
            if not _call(s.value, "iter") or _uses(w.body[1:], it) or \
                    _uses(block[j + 1:i], it) or _uses(block[i + 1:], it):
                return False
            body = w.body[1:] or [ast.copy_location(ast.Pass(), w)]
            x = s.value.args[0]
            if j != i - 1 and not isinstance(x, ast.Name):
                return False
            if j != i - 1 and x.id in _names_stored(block[j + 1:i]):
                return False
            f = ast.copy_location(ast.For(a.targets[0], x, body, []), w)
            f.type_comment = None
            block[i] = f
            del block[j]
            return True
        if it in _names_stored([s]):
            return False
    return False


def _counter(block, i):
    w = block[i]
    if not (isinstance(w, ast.While) and not w.orelse and
            isinstance(w.test, ast.Compare) and len(w.test.ops) == 1):
        return False
    op, l, r = w.test.ops[0], w.test.left, w.test.comparators[0]
    if isinstance(op, ast.Gt):
        l, r = r, l
    elif not isinstance(op, (ast.Lt, ast.NotEq)):
        return False
    if not isinstance(l, ast.Name):
        return False
    c = l.id
    if not (_call(r, "len") or isinstance(r, ast.Name)):
        return False
    if not w.body:
        return False
    last = w.body[-1]
    inc = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) \
        and isinstance(last.target, ast.Name) and last.target.id == c and \
        isinstance(last.value, ast.Constant) and last.value.value == 1
    if not inc and isinstance(last, ast.Assign) and \
            isinstance(last.targets[0], ast.Name) and \
            last.targets[0].id == c and isinstance(last.value, ast.BinOp) \
            and isinstance(last.value.op, ast.Add):
        p = [last.value.left, last.value.right]
        inc = any(isinstance(x, ast.Name) and x.id == c for x in p) and any(
            isinstance(x, ast.Constant) and x.value == 1 for x in p)
    if not inc:
        return False
    body = w.body[:-1]
    if not body or c in _names_stored(body) or _own(body, ast.Continue):
        return False
    src = r if isinstance(r, ast.Name) else r.args[0]
    if not isinstance(src, (ast.Name, ast.Attribute)):
        return False
    root = src
    while isinstance(root, ast.Attribute):
        root = root.value
    if not isinstance(root, ast.Name) or root.id in _names_stored(body):
        return False
    # what is counted may not grow or shrink in the loop
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr in (
                        "append", "pop", "insert", "remove", "extend",
                        "clear") and ast.dump(x.func.value) == ast.dump(src):
                return False
            if isinstance(x, ast.Delete) and any(
                    isinstance(t, ast.Subscript) and
                    ast.dump(t.value) == ast.dump(src) for t in x.targets):
                return False
    for j in range(i - 1, -1, -1):
        s = block[j]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Name) and \
                s.targets[0].id == c:
            if not (isinstance(s.value, ast.Constant) and
                    s.value.value == 0 and
                    not isinstance(s.value.value, bool)) or \
                    _uses(block[i + 1:], c):
                return False
            f = ast.For(ast.copy_location(ast.Name(c, ast.Store()), w),
                        ast.copy_location(ast.Call(
                            ast.copy_location(ast.Name("range", ast.Load()),
                                              w), [r], []), w), body, [])
            f.type_comment = None
            block[i] = ast.copy_location(f, w)
            del block[j]
            return True
        if c in _names_stored([s]):
            return False
    return False


def normalise(node):
    for fld in ("body", "orelse", "finalbody", "handlers"):
        b = getattr(node, fld, None)
        if not (isinstance(b, list) and b and
                isinstance(b[0], (ast.stmt, ast.ExceptHandler))):
            continue
        for s in b:
            normalise(s)
        i = 0
        while i < len(b):
            if isinstance(b[i], ast.While) and (
                    _iterator(b, i) or _counter(b, i)):
                i = max(0, i - 1)
                continue
            i += 1
    return node
