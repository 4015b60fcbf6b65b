"""The behaviour each function has to have, per property.

sa/spec/functions.json holds the specified normal form (summary.py) of every
function and table named in OWN.  ``check`` computes the normal form of the
current source and compares (refdiff.py): equal forms discharge the
obligation, a definite difference (an operator, constant, argument, condition
or effect that is not the specified one) violates it, everything else leaves
it undecided.
"""
import ast
import fnmatch
import os

from . import refdiff, summary
from .engine import DEBUG
from .model import ClassInfo

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec",
                    "functions.json")

A = "hftools.dataset.arrayobj."
D = "hftools.dataset.dataset."
F = "hftools.file_formats."
H = A + "_hfarray."
OPS = "and or xor add sub mul div truediv pow rand ror rxor radd rsub rmul " \
      "rdiv rtruediv rpow eq neg abs".split()

# property -> (functions and tables, functions of which only the refusals)
OWN = {
    "C01": ([A + "Dims.*", A + "DimsList.*", A + "dims_union",
             A + "change_shape", A + "make_same_dims*",
             A + "check_instance", A + "make_fullcomplex_array",
             A + "isfullcomplex", "hftools.dataset.dim.*_has_complex",
             "hftools.dataset.dim.*.sortprio",
             "hftools.utils.isnumber"] +
            [H + "__%s__" % o for o in OPS], []),
    "C02": ([H + x for x in ("T", "t", "transpose", "squeeze", "take",
                             "reorder_dimensions", "add_dim", "replace_dim",
                             "dims", "dims.setter", "verify_dimension",
                             "__new__", "__array_finalize__",
                             "__getitem__", "__getslice__")] +
            [A + x for x in ("ismatrix", "diagonal_view", "_expand_diagonal",
                             "expand_diagonals", "remove_rep", "remove_tail",
                             "as_strided", "get_new_anonymous_dim",
                             "replace_dim", "make_matrix", "make_vector")] +
            [D + "interpolate", D + "interp1d",
             "hftools.dataset.dim.DimBase.__getitem__"], []),
    "C03": ([A + "axis_handler", A + "multiple_axis_handler",
             H + "dims_index"] +
            [H + x for x in ("sum", "mean", "std", "var", "min", "max",
                             "rss", "cumsum", "cumprod")], []),
    "C04": ([H + x for x in ("view", "copy", "__array_finalize__",
                             "apply_outputformat", "__new__", "transpose",
                             "squeeze", "take", "add_dim",
                             "__getitem__", "__getslice__")] +
            [A + "hfarray.__new__", D + "DataBlock.outputformat*",
             D + "DataBlock.set_outputformat", D + "DataDict.outputformat*"],
            []),
    "C06": ([H + "copy", D + "DataDict.copy", D + "DataBlock.copy",
             "hftools.dataset.comments.Comments.copy",
             "hftools.dataset.dim.DimBase.copy",
             "hftools.networks.multiports._MultiPortArray.copy"], []),
    "C07": (["hftools.dataset.dim.DimBase.*", "hftools.dataset.dim._D*.*",
             "hftools.dataset.dim._I*.*", "hftools.dataset.dim.flatten"],
            []),
    "C08": ([D + "DataBlock.%s" % x for x in (
        "__contains__", "__delattr__", "__delitem__", "__getattr__",
        "__getitem__", "__init__", "__setattr__", "__setitem__",
        "allvarnames", "filter", "guess_units", "interpolate",
        "keep_variables", "remove_rep", "rename", "replace_dim", "sort",
        "squeeze", "values_from_property", "view", "xname", "xname.setter",
        "xvalue", "blockname", "blockname.setter")] +
        [D + x for x in ("change_dim", "convert_matrices_to_elements",
                         "subset_datablock_by_dims", "is_matrix_name",
                         "yield_dim_consistent_datablocks")], []),
    "C09": ([D + "DataDict.*"], []),
    "C10": ([F + "readbase.*", F + "glob_pat", F + "read_*",
             F + "*.read_citi", F + "*.read_mdif", F + "*.read_spdata",
             F + "*.read_touchstone", F + "*.is_*",
             F + "hdf5.hdf5.read_hdf5", "hftools.utils.glob",
             F + "common.normalize_names"], []),
    "C12": ([F + "hdf5.*", "hftools.py3compat.cast_*",
             "hftools.py3compat.*code"], []),
    "C13": ([F + "hdf5.v_02." + x for x in (
        "append_hdf5", "expand_dataset", "cast_arrays_to_hdf5",
        "create_dataset", "save_hdf5_handle", "unescape_varname",
        "escape_varname")], []),
    "C14": ([F + "citi.*", F + "touchstone.*", F + "spdata.*",
             F + "muwave_mat.*", F + "mdif.GetData.*",
             F + "mdif.fmt_mdif_block", F + "mdif.*.proc_*",
             F + "mdif.*.make_matrices", F + "mdif.match_matrix_names",
             F + "readbase.make_cplx", D + "convert_matrices_to_elements",
             F + "readbase.*._make_matrix_from_block"] +
            [F + "common." + x for x in (
                "db_iterator", "findpad_reg", "format_complex_header",
                "format_elem", "format_unit_header", "get_dims_names",
                "make_block_iterator", "make_col_from_matrix", "padhead",
                "remove_enclosing_function*")], []),
    "C15": ([], [F + "citi.*", F + "touchstone.*", F + "spdata.*",
                 F + "mdif.*", F + "readbase.*", F + "muwave_mat.*"]),
    "C16": (["hftools.constants.si_units.*",
             "hftools.dataset.helper.guess_unit_from_varname",
             "hftools.dataset.helper.add_var_guess",
             F + "readbase.fix_unit"], []),
    "C17": (["hftools.networks.*"], []),
    "C18": ([F + "merge.*", D + "DataBlock.hyper", F + "mdif.simple_merge_blocks",
             F + "readbase.ReadFileFormat._merge",
             F + "mdif.ReadMDIFFileFormat._merge",
             "hftools.utils.lex_order", "hftools.utils.uniq",
             "hftools.utils.stable_uniq"], []),
    "C19": (["hftools.logger.*"], []),
    "C22": (["hftools.plotting.helper.*Axes.%s" % x for x in (
        "name", "__init__", "plot", "_plot_helper", "set_*", "get_*")] +
        ["hftools.plotting.helper.*UnitFormatter.*",
         "hftools.plotting.helper.default_unit_names",
         "hftools.plotting.helper.cplx_polar_projection",
         "hftools.plotting.helper.get_dims_names"] +
        ["hftools.plotting.helper." + x for x in (
            "build_figlegend", "twin_*", "set_?tick", "adjust_axwidth",
            "?label_fmt", "all_figures", "save_all_figures_to_pdf",
            "savefig", "no_?tick_text")], []),
    "C23": ([], [A + "*", D + "*", "hftools.dataset.dim.*",
                 "hftools.math.*", "hftools.networks.*",
                 F + "hdf5.*", "hftools.plotting.helper.*",
                 "hftools.plotting.smith.*", "hftools.utils.*"]),
    "C24": ([F + "config.*"], []),
    "C25": (["hftools.math.*"] + ["hftools.utils." + x for x in (
        "chop", "flatten", "to_numeric", "is_numlike", "is_integer",
        "isrealnumber", "isnumber", "uniq", "stable_uniq", "lex_order",
        "split_num", "reg_split", "dateregexp", "timestamp")], []),
    "C26": ([F + "mdif.*"], []),
    "C27": (["hftools.dataset.comments.*", F + "common.Comments.*",
             F + "common.conv_*", F + "common.reg_*",
             F + "common.process_comment", F + "common.convert",
             D + "DataBlock.values_from_property",
             F + "readbase.ReadFileFormat._properties_to_vars"], []),
    "C28": (["hftools.plotting.smith.*"], []),
}

SI = "hftools.constants.si_units."
MP = "hftools.networks.multiports._MultiPortArray."
OWN["C05"] = ([], [])
# further functions a property's statement speaks about, beside those above
for _p, _f in {
        "C02": [H + x for x in ("sum", "mean", "std", "var", "min", "max",
                                "rss", "cumsum", "cumprod", "dims_index",
                                "view", "copy")] +
        [A + "axis_handler", A + "multiple_axis_handler", A + "change_shape",
         A + "Dims.*", MP + "__getitem__", MP + "__new__", MP + "view",
         "hftools.networks.noise.Hconj"] +
        ["hftools.math." + x for x in ("make_matrix", "det", "inv",
                                       "matrix_multiply", "solve_Ab")] +
        [D + "DataBlock." + x for x in ("squeeze", "sort", "filter",
                                        "hyper", "replace_dim")],
        "C03": [H + "squeeze"],
        "C05": [MP + "__new__", MP + "__init__", MP + "copy",
                F + "common.normalize_names", "hftools.math.chop",
                "hftools.utils.chop",
                "hftools.networks.spar_functions.make_reciprocal"],
        "C04": [H + x for x in ("sum", "mean", "std", "min", "max", "cumsum",
                                "reorder_dimensions", "replace_dim")] +
        [A + x for x in ("axis_handler", "multiple_axis_handler",
                         "remove_rep", "remove_tail", "change_shape")] +
        [D + x for x in ("interpolate", "DataBlock.filter",
                         "DataBlock.sort", "DataBlock.squeeze",
                         "DataBlock.interpolate", "DataBlock.hyper",
                         "DataBlock.remove_rep")] +
        ["hftools.math.chop"] +
        [MP + x for x in ("__array_finalize__", "view", "copy",
                          "__getitem__", "__new__")],
        "C06": [D + "DataBlock.view", D + "DataDict.view",
                D + "DataDict.__init__", D + "DataBlock.__init__",
                "hftools.dataset.comments.Comments.__init__",
                "hftools.dataset.comments.Comments.extend"],
        "C08": [D + "DataBlock.hyper", D + "DataBlock.copy",
                D + "DataBlock.outputformat*",
                D + "DataBlock.set_outputformat", D + "interpolate",
                H + "replace_dim", A + "replace_dim", H + "squeeze",
                A + "remove_rep", D + "DataDict.*outputformat*"],
        "C10": [D + "DataBlock.guess_units",
                D + "DataBlock.values_from_property", F + "*.read_file",
                F + "*._merge", F + "mdif.simple_merge_blocks",
                "hftools.dataset.helper.guess_unit_from_varname",
                "hftools.constants.si_units.unit_to_multiplier"],
        "C15": [F + "touchstone.process_data", F + "touchstone._process_data",
                F + "touchstone.reg_touch", F + "touchstone.is_touchstone",
                F + "touchstone.freqmultdict", F + "touchstone.proc_data",
                F + "touchstone.*.tokenize", F + "citi.*.tokenize",
                F + "citi.*.parse_blocks", F + "citi.reg_data",
                F + "mdif.*.tokenize", F + "mdif.*.group_blocks",
                F + "mdif.GetData.*", F + "spdata.*.tokenize",
                F + "spdata.*.group_blocks", F + "readbase.One",
                F + "readbase.OneOf", F + "readbase.ManyOptional",
                F + "readbase.Optional", F + "readbase.ExpectEndOfFile",
                F + "readbase.Stream.*", F + "readbase.*.do_file",
                F + "readbase._matrix_elements"],
        "C16": [F + "config.convert_si_value", D + "DataBlock.guess_units",
                "hftools.utils.to_numeric", "hftools.utils.isrealnumber"],
        "C17": ["hftools.math." + x for x in (
            "inv", "det", "matrix_multiply", "solve_Ab", "make_matrix")],
        "C18": ["hftools.dataset.comments.Comments.extend"],
        "C22": ["hftools.math." + x for x in (
            "dB", "delay", "unwrap_phase", "_unwrap_phase", "angle")],
        "C23": [H + "dims_index", H + "verify_dimension",
                A + "axis_handler", A + "multiple_axis_handler",
                A + "Dims.*", D + "DataBlock.__getitem__",
                D + "DataBlock.__getattr__", D + "DataBlock.rename",
                D + "DataBlock.set_outputformat", D + "is_matrix_name",
                "hftools.math.interpolate"],
        "C24": [SI + "siprefixes", SI + "unit_to_multiplier",
                SI + "string_number_with_unit_to_value",
                SI + "convert_with_unit", SI + "reg_value", SI + "reg_unit"],
        "C27": [F + "*.parse_blocks", F + "*.group_blocks",
                SI + "convert_with_unit", SI + "unit_to_multiplier",
                SI + "siprefixes", "hftools.utils.to_numeric"],
        }.items():
    OWN[_p] = (OWN[_p][0] + _f, OWN[_p][1])

# not behaviour anyone relies on
SKIP = ["*.__repr__", "*.__str__", "*.__dir__", "*.help", "*.info",
        "*.info.setter", "*.info_index", "*._examples", "*._test*",
        "*.matrix_multiply_old", "*.ensure_lexical", "*.ensure_standard",
        "*.Comments.table", "*.Comments.width"]


def names(keys, pats):
    return [k for k in keys if any(fnmatch.fnmatchcase(k, p) for p in pats)
            and not any(fnmatch.fnmatchcase(k, p) for p in SKIP)]


def toplevel(prog):
    for fi in prog.all_functions():
        if not isinstance(fi.node, ast.Lambda) and fi.parent is None:
            yield fi


def everything(prog):
    """normal forms of the whole program (to write the specification)"""
    out = {}
    for fi in toplevel(prog):
        s = summary.summarise(prog, fi)
        if s is not None:
            out[summary.key(fi)] = s
    for k, v in summary.module_tables(prog).items():
        out[k] = ([v], [])
    return out


def wanted(keys):
    out = set()
    for full, part in OWN.values():
        out.update(names(keys, full + part))
    return out


def classes(prog):
    """class -> (itself and what it is derived from, its own attributes)"""
    out = {}
    for m in prog.modules.values():
        for c in m.syms.values():
            if isinstance(c, ClassInfo) and c.module is m:
                out[c.fullname] = ({x.fullname for x in c.mro()} |
                                   set(c.ext_bases()),
                                   set(c.methods) | set(c.attrs))
    return out


class Current(object):
    def __init__(self, prog, spec):
        self.prog, self.spec = prog, spec
        self.fis = {}
        for fi in toplevel(prog):
            self.fis[summary.key(fi)] = fi
        self.tables = None
        self.sums, self.words = {}, {}

    def get(self, k):
        if k in self.fis:
            if k not in self.sums:
                self.sums[k] = summary.summarise(self.prog, self.fis[k])
            return self.sums[k]
        if self.tables is None:
            self.tables = summary.module_tables(self.prog)
        return ([self.tables[k]], []) if k in self.tables else None

    def mentions(self, k):
        if k not in self.words:
            w = set()
            if k in self.fis:
                for n in ast.walk(self.fis[k].node):
                    if isinstance(n, ast.Name):
                        w.add(n.id)
                    elif isinstance(n, ast.Attribute):
                        w.add(n.attr)
            self.words[k] = w
        return self.words[k]

    def related(self, k):
        """functions that call k or that k calls"""
        me = bare(k)
        for o in self.fis:
            if o != k and o in self.spec and (
                    bare(o) in self.mentions(k) or me in self.mentions(o)):
                yield o

    def moved(self, k, es):
        """what k lost or gained may be in a changed neighbour"""
        if not any(e.kind.endswith(("left out", "added", "dropped",
                                    "missing")) for e in es):
            return None
        for o in self.related(k):
            s = self.get(o)
            if s is None:
                return o
            v, os, w = refdiff.compare(self.spec[o], s)
            if v == "same" or v == "differs" and \
                    {e.kind for e in os} == {e.kind for e in es}:
                # the same, seen through a call
                continue
            return o
        return None


def bare(k):
    p = k.split(".")
    if p[-1] in ("setter", "deleter"):
        p.pop()
    if p[-1] in ("__init__", "__new__") and len(p) > 1:
        return p[-2]
    return p[-1]


def only_raises(s):
    return [e for e in s[0] if e.op == "effect" and
            e.kids[0].op == "raise"], []


def check(prog, rep):
    full, part = OWN.get(rep.pid, ([], []))
    spec = refdiff.load(SPEC)
    cur = Current(prog, spec)
    refdiff.EXISTING = set(cur.fis)
    refdiff.CLASSES = classes(cur.prog)
    refdiff.SPECIFIED = set(spec)
    done = names(spec, full)
    todo = [(k, False) for k in done] + \
        [(k, True) for k in names(spec, part) if k not in done]
    for k, raising in sorted(todo):
        rule = "refuses as specified" if raising else "as specified"
        want = spec[k]
        if raising:
            want = only_raises(want)
            if not want[0]:
                continue
        try:
            one(cur, rep, k, rule, want, raising)
        except Exception as exc:
            if DEBUG:
                raise
            rep.unsure(rule, k, "", "%s: %s" % (type(exc).__name__, exc))


def one(cur, rep, k, rule, want, raising):
    fi = cur.fis.get(k)
    if fi is not None:
        rep.analysed(fi)
        where = "%s:%d (%s)" % (fi.module.rel, fi.node.lineno, fi.qual)
    else:
        where = k
    have = cur.get(k)
    if have is None:
        rep.unsure(rule, k, where, "no normal form")
        return
    if raising:
        have = only_raises(have)
    try:
        v, es, effs = refdiff.compare(want, have, k)
    except (ArithmeticError, AssertionError, LookupError, RecursionError,
            TypeError, ValueError, AttributeError) as exc:
        rep.unsure(rule, k, where, "comparison failed: %r" % exc)
        return
    if v == "same":
        rep.holds(rule, k, where, "%d effects" % len(want[0]))
        return
    if v == "differs":
        m = cur.moved(k, es)
        if m is None:
            for e in effs:
                if e.id in summary.e_nodes:
                    where = str(summary.e_nodes[e.id])
                    break
            rep.bad(rule, k, where, "; ".join(repr(e) for e in es))
            return
        rep.unsure(rule, k, where, "changed together with %s" % m)
        return
    rep.unsure(rule, k, where, "not comparable with the specification")
