"""No state is carried from one call to the next."""
import ast

from ..effects import mutations
from ..engine import T, show
from ..lib import all_funcs, fname, hf_policy, is_param, loc, run
from ..model import AnalysisBroken, ClassInfo, ModVar

RULE = (
    "Effect analysis over every function (helpers inlined): no store, "
    "in-place operation or mutating method may reach a module-level object, "
    "a class object or class-level container, or a mutable default argument; "
    "no global statement rebinding; no memoising decorator on a function "
    "whose result is mutable or depends on files or mutable tables.  "
    "Exceptions: registering a unit guess, and the log handler switch.")
MIN = 250

ALLOW = {("hftools.dataset.helper.add_var_guess",
          "hftools.dataset.helper._varname_unit_guess_db")}
ALLOW_GLOBAL = {"hftools.logger.start_log": {"_stream_handler"},
                "hftools.logger.stop_log": {"_stream_handler"}}
MEMO = {"functools.lru_cache", "functools.cache", "functools.cached_property"}


def mutable_literal(n):
    return isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.DictComp)) or (
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
        n.func.id in ("list", "dict", "set", "defaultdict", "OrderedDict",
                      "DataDict"))


def class_mutables(ci):
    out = {}
    for c in ci.mro():
        for st in c.node.body:
            if isinstance(st, ast.Assign) and mutable_literal(st.value):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, c)
    return out


def self_assigned(ci):
    """attributes some method of the class assigns on self."""
    out = {}
    for c in ci.mro():
        for m in c.methods.values():
            if not hasattr(m, "node") or isinstance(m.node, ast.Lambda):
                continue
            for nd in ast.walk(m.node):
                if isinstance(nd, ast.Attribute) and isinstance(
                        nd.ctx, ast.Store) and isinstance(
                        nd.value, ast.Name) and nd.value.id == "self":
                    out.setdefault(nd.attr, set()).add(m.name)
    return out


def check(prog, rep, tier):
    inl = hf_policy(prog)
    n = 0
    for fi in all_funcs(prog, skip=("hftools.testing",)):
        try:
            eng, res = run(prog, fi, inline=inl, depth=3)
        except AnalysisBroken as exc:
            rep.unsure("stateless", fi, loc(fi), str(exc))
            continue
        rep.analysed(fi)
        bad = []
        cm = class_mutables(fi.cls) if fi.cls is not None else {}
        sa = self_assigned(fi.cls) if cm else {}
        for e, roots, what in mutations(eng):
            if e.fi is not fi and e.fi.fullname in ("hftools.dataset.helper."
                                                    "add_var_guess",):
                continue
            for r in roots:
                if r.op == "ent" and isinstance(r.args[0], (ModVar,
                                                            ClassInfo)):
                    nm = getattr(r.args[0], "fullname", str(r.args[0]))
                    if (fi.fullname, nm) in ALLOW:
                        continue
                    bad.append(("%s: %s" % (nm, what), e.loc))
                elif r.op == "param" and mutable_literal(
                        fi.defaults.get(r.args[0])):
                    bad.append(("default of argument %s: %s"
                                % (r.args[0], what), e.loc))
                elif r.op == "defobj":
                    bad.append(("default argument %s: %s" % (show(r), what),
                                e.loc))
                elif is_param(r, "cls") and fi.cls is not None and \
                        e.obj is r and e.kind == "store_attr" and not \
                        metaclass(fi.cls):
                    bad.append(("class attribute: %s" % what, e.loc))
            o = e.obj
            if e.kind in ("store_sub", "mut", "del_sub", "aug") and o.op == \
                    "attr" and is_param(o.args[0], "self") and \
                    o.args[1] in cm:
                x = o.args[1]
                inits = {"__init__", "__new__"} & sa.get(x, set())
                if not inits or e.fi.name == "__init__":
                    bad.append(("class-level %s.%s: %s" % (
                        cm[x].name, x, what), e.loc))
            if e.kind == "store_attr" and (
                    o.op == "attr" and o.args[1] == "__class__" or
                    o.op == "call" and fname(o.args[0]) == "builtins.type"):
                bad.append(("class attribute %s" % e.name, e.loc))
        for e in eng.events:
            if e.kind == "assign_global" and e.name not in ALLOW_GLOBAL.get(
                    e.fi.fullname, ()):
                bad.append(("global %s is rebound" % e.name, e.loc))
            if e.kind == "store_attr" and (
                    e.obj.op == "attr" and e.obj.args[1] == "__class__" or
                    e.obj.op == "call" and
                    fname(e.obj.args[0]) == "builtins.type"):
                bad.append(("class attribute %s is assigned" % e.name,
                            e.loc))
            if e.kind == "store_attr" and e.obj.op in ("ent", "closure") and \
                    hasattr(e.obj.args[0], "node") and not isinstance(
                        e.obj.args[0], ClassInfo) and e.obj.op == "ent":
                bad.append(("function attribute %s is assigned" % e.name,
                            e.loc))
        for d in fi.decorators:
            dd = d.func if isinstance(d, ast.Call) else d
            ent = prog.resolve_expr(fi.module, dd)
            if getattr(ent, "name", "") in MEMO:
                if memo_bad(eng, res):
                    bad.append(("results of %s are memoised and shared"
                                % fi.name, loc(fi)))
        ok = not bad
        rep.ob("stateless", fi, ok, loc(fi), "" if ok else
               "%s (%s)" % bad[0])


def metaclass(ci):
    return "builtins.type" in ci.ext_bases()


def memo_bad(eng, res):
    from ..lib import is_array_ctor
    for t in __import__("sa.engine", fromlist=["alternatives"]).alternatives(
            res.term):
        if t.op == "obj" or t.op == "call" and (
                is_array_ctor(t.args[0]) or
                fname(t.args[0]).startswith("numpy.")):
            return True
        if t.op == "call" and t.args[0].op == "attr" and \
                t.args[0].args[0].op == "ent" and \
                isinstance(t.args[0].args[0].args[0], ModVar):
            return True
    for e in eng.events:
        if e.kind == "call" and fname(e.obj) in ("builtins.open", "io.open",
                                                 "codecs.open"):
            return True
    return False
