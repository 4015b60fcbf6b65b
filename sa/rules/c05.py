"""Operations do not modify their inputs."""
import ast

from ..effects import Alias, mutations
from ..engine import T, cval, is_const, show, subterms
from ..lib import all_funcs, hf_policy, loc, run, short
from ..model import AnalysisBroken, ModVar
from ..tables import ENTRY, MUTATORS

RULE = (
    "Interprocedural effect analysis.  Every function of the dataset, maths, "
    "network and file-format packages that exists in the frozen table of "
    "entry points is analysed with its helpers inlined; each store "
    "(attribute, element, augmented assignment, del, mutating container or "
    "array method, out=, numpy in-place function) is traced through the "
    "alias relation (views, asarray, copy=False constructors, container "
    "elements) to its roots.  A root that is a parameter not in the table of "
    "documented mutators is a violation.")
MIN = 250

SCALAR = {"axis", "n", "N", "idx", "i", "j", "k", "name", "unit", "msg",
          "order", "ndmin", "size", "width", "prefix", "depth", "Z0", "tol",
          "count", "text", "fmt", "key", "value", "s", "line", "row", "rad",
          "level", "offset", "num", "scale", "exponent", "label", "start",
          "stop", "step", "filename", "fname", "format", "title"}


def scalar_aug(eng, e, rt, fi):
    """augmented assignment of a plain number/str parameter rebinding it."""
    if e.kind != "aug":
        return False
    # direct parameter only (not part of it)
    o = e.obj
    if o is not rt and not (o.op in ("loop", "phi")):
        return False
    n = rt.args[0]
    if n in SCALAR:
        return True
    d = fi.defaults.get(n)
    if isinstance(d, ast.Constant) and isinstance(
            d.value, (int, float, str, complex)):
        return True
    return False


def check(prog, rep, tier):
    inl = hf_policy(prog)
    table = set(ENTRY)
    seen = 0
    for fi in all_funcs(prog, skip=("hftools.testing",)):
        if fi.parent is not None or fi.fullname not in table:
            continue
        seen += 1
        try:
            eng, res = run(prog, fi, inline=inl)
        except AnalysisBroken as exc:
            rep.unsure("effects", fi, loc(fi), str(exc))
            continue
        rep.analysed(fi)
        allowed = MUTATORS.get(fi.fullname, ())
        if fi.module.name.startswith("hftools.plotting") and \
                fi.cls is not None:
            allowed = tuple(allowed) + ("self",)     # axes and formatters
        fresh = {a.arg for a in (fi.args.kwarg, fi.args.vararg) if a}
        if fi.is_setter:
            allowed = tuple(allowed) + ("self",)
        if fi.cls is not None and fi.name in (
                "__init__", "__new__", "__array_finalize__"):
            allowed = tuple(allowed) + (fi.params[0],) if fi.params else ()
            if fi.name == "__new__":
                allowed = tuple(allowed) + ("self",)
        if "*" in allowed:
            rep.holds("effects", fi, loc(fi), "documented mutator")
            continue
        bad = {}
        for e, roots, what in mutations(eng):
            for rt in roots:
                if rt.op != "param":
                    continue
                n = rt.args[0]
                if n in fresh and e.obj is rt:
                    continue     # the **kw dict itself belongs to the call
                if n in allowed or scalar_aug(eng, e, rt, fi):
                    continue
                bad.setdefault(n, "%s at %s" % (what, e.loc))
        if not bad:
            rep.holds("effects", fi, loc(fi))
        for n, what in sorted(bad.items()):
            rep.bad("effects", "%s(%s)" % (fi.fullname, n), loc(fi),
                    "parameter %r of %s is modified: %s"
                    % (n, fi.fullname, what))
