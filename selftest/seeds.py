"""Planted bugs (see seed.py)."""
S = []
AO = "dataset/arrayobj.py"
DS = "dataset/dataset.py"
DM = "dataset/dim.py"
MP = "networks/multiports.py"
HD = """
import numpy as np
from hftools.dataset import *
import hftools.dataset as hfd
"""


def seed(id, prop, needs, what, edits, demo, head=HD):
    S.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits,
                  demo=head + demo))


seed("c01-samendim", "C01",
     "two arrays with the same number of dims and same shape but the dims in "
     "a different order",
     "operands of equal shape are combined by position instead of by dim",
     [(AO, "        if isnumber(other):\n            a, b = self, other\n",
       "        if isnumber(other):\n            a, b = self, other\n"
       "        elif (isinstance(other, self.__class__) and\n"
       "              other.shape == self.shape and self.ndim == 2 and\n"
       "              other.dims.__class__ is self.dims.__class__ and\n"
       "              sorted(other.dims) == sorted(self.dims)):\n"
       "            a, b = self, other\n")],
     """
fi = DimSweep("freq", [1, 2]); ri = DimRep("rep", [0, 1])
a = hfarray(np.arange(4.).reshape(2, 2), dims=(fi, ri))
b = a.transpose(1, 0)
c = a + b
c = c.reorder_dimensions(fi, ri)
assert np.allclose(np.asarray(c), 2 * np.asarray(a)), c
""")
seed("c01-rxor", "C01",
     "array - array where the left operand is not an array of this library "
     "and the dims differ",
     "reflected subtraction has its sign swapped for array operands",
     [(AO, "        return (-self).__add__(other)",
       "        if isnumber(other):\n"
       "            return (-self).__add__(other)\n"
       "        return self.__sub__(other)")],
     """
a = hfarray(np.array([1., 2., 3.]), dims=(DimSweep("freq", [0, 1, 2]),))
r = [5., 5., 5.] - a
assert np.allclose(np.asarray(r), [4, 3, 2]), r
""")
seed("c05-filterunit", "C05",
     "sorting a data set that has a variable with the sorted dimension",
     "DataBlock.sort writes the sorted values into the original's arrays",
     [(DS, "                out[v] = data.take(sortorder, i)",
       "                data[...] = np.asarray(data.take(sortorder, i))\n"
       "                out[v] = data")],
     """
db = DataBlock()
f = DimSweep("f", [3., 1., 2.])
db.x = hfarray([30., 10., 20.], dims=(f,))
d2 = db.sort(db.f)
assert list(np.asarray(db.x)) == [30., 10., 20.], db.x
""")
seed("c06-commentsshared", "C06",
     "modifying the properties of the comments of a copy",
     "Comments.copy shares the property dictionary with the original",
     [("dataset/comments.py", "        out.property = self.property.copy()",
       "        out.property = self.property")],
     """
from hftools.dataset.comments import Comments
c = Comments(["A: 1"])
d = c.copy()
d.property["NEW"] = 3
assert "NEW" not in c.property
""")
seed("c07-derivedfmt", "C07",
     "constructing a dimension from another one with new data",
     "a dimension derived with other values loses its outputformat",
     [(DM, "        if data is not None:\n            dim_data = data\n",
       "        if data is not None:\n            dim_data = data\n"
       "            dim_outputformat = outputformat\n")],
     """
d = DimSweep("f", [1., 2., 3.], unit="Hz", outputformat="%.3f")
e = DimSweep(d, data=[1., 2.])
assert e.outputformat == "%.3f", e.outputformat
""")
seed("c21-guesscache", "C21", "guessing the unit of an unknown name, then "
     "counting the known names / iterating them",
     "looking up a unit guess registers the name",
     [("dataset/helper.py",
       "    return _varname_unit_guess_db.get(varname, None)",
       "    return _varname_unit_guess_db.setdefault(varname, None)")],
     """
from hftools.dataset import helper
n = len(helper._varname_unit_guess_db)
helper.guess_unit_from_varname("nosuchvar")
assert len(helper._varname_unit_guess_db) == n
""")
seed("c19-doublestart", "C19", "start_log twice, then stop_log",
     "a second start_log with a handler present attaches another handler",
     [("logger.py", "    if not _stream_handler:\n        _stream_handler = logging.StreamHandler(sys.stderr)\n        logger.addHandler(_stream_handler)",
       "    if not _stream_handler or _stream_handler.level:\n        _stream_handler = logging.StreamHandler(sys.stderr)\n        logger.addHandler(_stream_handler)\n    _stream_handler.setLevel(logging.INFO)")],
     """
import hftools.logger as L
n = len(L.logger.handlers)
L.start_log(); L.start_log(); L.stop_log()
assert len(L.logger.handlers) == n, L.logger.handlers
""")
CM = "dataset/comments.py"
seed("c02-tsquare", "C02",
     "the matrix transpose of a square matrix whose i and j values differ",
     "t only exchanges the values of the i and j dimensions of non-square "
     "matrices",
     [(AO, "        newdims = list(out.dims)\n        newdims[i], newdims[j], = (DimMatrix_i(di.name, dj.data),\n                                   DimMatrix_j(dj.name, di.data))\n        out.dims = Dims(newdims)\n        return out\n",
       "        if self.shape[i] == self.shape[j]:\n            out.dims = self.dims\n            return out\n        newdims = list(out.dims)\n        newdims[i], newdims[j], = (DimMatrix_i(di.name, dj.data),\n                                   DimMatrix_j(dj.name, di.data))\n        out.dims = Dims(newdims)\n        return out\n")],
     """
a = hfarray(np.arange(4.).reshape(2, 2), dims=(DimMatrix_i("i", [1, 2]), DimMatrix_j("j", [5, 6])))
b = a.t
assert list(b.dims[0].data) == [5, 6] and list(b.dims[1].data) == [1, 2], [d.data for d in b.dims]
""")
seed("c02-boolmask", "C02",
     "a boolean mask over several dims of an array with further dims before "
     "and after",
     "the dims after the mask are taken counted from the number of leading "
     "dims only",
     [(AO, "                    reordered.dims[len(reorder) + len(indices[0].dims):])",
       "                    reordered.dims[max(len(reorder) + 1,\n"
       "                                       len(indices[0].dims)):])")],
     """
f = DimSweep("f", 2); g = DimSweep("g", 3); h = DimSweep("h", 4); k = DimSweep("k", 5)
a = hfarray(np.arange(120.).reshape(2, 3, 4, 5), dims=(f, g, h, k))
m = hfarray(np.ones((3, 4), bool), dims=(g, h))
m[0, 0] = False
b = a[m]
assert [d.name for d in b.dims] == ["f", b.dims[1].name, "k"], b.dims
""")
seed("c02-takeneg", "C02", "taking along an axis with negative indices",
     "take gives the dimension the wrong values for negative indices",
     [(AO, "                                  data=np.asarray(olddim.data)[indices])",
       "                                  data=np.asarray(olddim.data)[\n"
       "                                      np.abs(np.asarray(indices))])")],
     """
a = hfarray([1., 2., 3.], dims=(DimSweep("f", [10, 20, 30]),))
b = a.take([0, -1], 0)
assert list(b.dims[0].data) == [10, 30], b.dims[0].data
""")
seed("c03-minsqueeze", "C03",
     "min over one axis of an array with another axis of length one",
     "min also drops the other axes of length one",
     [(AO, "        r = np.asarray(self).min(dimidx, out=out, keepdims=True)\n        res = hfarray(r, dims=self.dims, unit=self.unit)\n        if not keepdims:\n            res = res.squeeze(axis=dimidx)",
       "        r = np.asarray(self).min(dimidx, out=out, keepdims=True)\n        res = hfarray(r, dims=self.dims, unit=self.unit)\n        if not keepdims:\n            res = res.squeeze()")],
     """
f = DimSweep("f", 3); r = DimRep("r", 1)
a = hfarray(np.arange(3.).reshape(3, 1), dims=(f, r))
assert a.min(0).shape == (1,), a.min(0).shape
""")
seed("c04-squeezeunit", "C04", "squeezing an array with a unit",
     "squeeze goes through a plain array and loses unit and format",
     [(AO, "        return self.__class__(ndarray.squeeze(self, axis=dimidxs),\n                              dims=newinfo, copy=False)",
       "        data = np.squeeze(np.asarray(self), axis=dimidxs)\n        return self.__class__(data, dims=newinfo, copy=False)")],
     """
a = hfarray(np.ones((3, 1)), dims=(DimSweep("f", 3), DimRep("r", 1)), unit="V", outputformat="%.2f")
b = a.squeeze()
assert b.unit == "V" and b.outputformat == "%.2f"
""")
seed("c04-emptyunit", "C04", "an explicit empty unit over data with a unit",
     "an explicit unit that is the empty string does not win",
     [(AO, "        if unit is None and hasattr(data, \"unit\"):",
       "        if not unit and hasattr(data, \"unit\"):")],
     """
a = hfarray([1., 2.], dims=(DimSweep("f", 2),), unit="V")
b = hfarray(a, unit="")
assert b.unit == "", b.unit
""")
seed("c05-subsetdims", "C05", "an interpolation of variables lacking the "
     "dimension of a view of the block",
     "DataBlock.squeeze sets the output format of shared arrays",
     [(DS, "        for k, v in self.ivardata.items():\n            db[k] = v\n        return db",
       "        for k, v in self.ivardata.items():\n            db[k] = v\n        db.comments and db.comments.property.pop(\"squeezed\", None)\n        return db")],
     """
from hftools.dataset.comments import Comments
db = DataBlock()
db.x = hfarray([1.], dims=(DimSweep("f", 1),))
db.comments = Comments(["squeezed: 1"])
db.squeeze()
assert "squeezed" in db.comments.property
""")
seed("c06-copyorder", "C06",
     "copying a block whose comments are an empty object, then adding to "
     "the copy's comments",
     "the copy of a block shares the comments when they hold no properties",
     [(DS, "        out = DataBlock()\n        out.blockname = self.blockname\n        if self.comments:\n            out.comments = self.comments.copy()",
       "        out = DataBlock()\n        out.blockname = self.blockname\n        out.comments = self.comments\n        if self.comments and self.comments.property:\n            out.comments = self.comments.copy()")],
     """
from hftools.dataset.comments import Comments
db = DataBlock()
db.x = hfarray([1.], dims=(DimSweep("f", 1),))
db.comments = Comments(["just text"])
d2 = db.copy()
d2.comments.add_from_comment("A: 1")
assert db.comments.fullcomments == ["just text"], db.comments.fullcomments
""")
seed("c07-slicefmt", "C07", "slicing a dimension backwards",
     "a reversed dimension loses its unit",
     [(DM, "        elif isinstance(index, slice):\n            a = self.__class__(self.name, self.data[index], unit=self.unit,\n                               outputformat=self.outputformat)\n            return a",
       "        elif isinstance(index, slice):\n            if index.step is not None and index.step < 0:\n                return self.__class__(self.name, self.data[index],\n                                      outputformat=self.outputformat)\n            a = self.__class__(self.name, self.data[index], unit=self.unit,\n                               outputformat=self.outputformat)\n            return a")],
     """
a = DimSweep("f", [1, 2], unit="Hz")[::-1]
assert a.unit == "Hz"
""")
seed("c08-replaceclass", "C08", "replacing a dimension in a block where a "
     "variable carries it with another class",
     "replace_dim leaves variables whose dim is of another class alone",
     [(DS, "        for v in self.vardata.values():\n            v.replace_dim(olddim, newdim)",
       "        for v in self.vardata.values():\n            if olddim in v.dims:\n                v.replace_dim(olddim, newdim)")],
     """
db = DataBlock()
db.x = hfarray([1., 2.], dims=(DimSweep("f", [1, 2]),))
db.y = hfarray([1., 2.], dims=(DimRep("f", [1, 2]),))
db.rename("f", "g")
assert db.y.dims[0].name == "g", db.y.dims
""")
seed("c08-filterorder", "C08", "filtering along a dim that is neither first "
     "nor last of a variable",
     "filter leaves the filtered axis first",
     [(DS, "            dimorder = [x.name for x in self.vardata[v].dims]\n            utdata = utdata.reorder_dimensions(*dimorder)",
       "            dimorder = [x.name for x in self.vardata[v].dims[:i]]\n            if i != 1 or data.ndim == 2:\n                utdata = utdata.reorder_dimensions(*dimorder)")],
     """
f = DimSweep("f", [1, 2]); g = DimSweep("g", [1, 2, 3]); h = DimSweep("h", [1, 2])
db = DataBlock()
db.x = hfarray(np.arange(12.).reshape(2, 3, 2), dims=(f, g, h))
d = db.filter(db.g > 1)
assert [a.name for a in d.x.dims] == ["f", "g", "h"], d.x.dims
""")
seed("c08-sortview", "C08", "sorting a block that has variables without the "
     "sorted dimension after one with it",
     "sort drops the comments when the block has no name",
     [(DS, "        sortorder = dim.argsort()\n\n        out = DataBlock()\n        out.blockname = self.blockname\n        out.comments = self.comments",
       "        sortorder = dim.argsort()\n\n        out = DataBlock()\n        if self.blockname:\n            out.blockname = self.blockname\n            out.comments = self.comments")],
     """
from hftools.dataset.comments import Comments
db = DataBlock()
db.x = hfarray([1., 2.], dims=(DimSweep("f", [2, 1]),))
db.comments = Comments(["A: 1"])
d = db.sort(db.f)
assert d.comments is not None
""")
seed("c09-setdefault", "C09", "setdefault of a new key after a dict.update "
     "or rename", "setdefault does not record the order of a key with a "
     "false value",
     [(DS, "        a = dict.setdefault(self, key, value)\n        if key not in self.order:\n            self.order[:] = self.keys()",
       "        a = dict.setdefault(self, key, value)\n        if key not in self.order:\n            self.order[:] = sorted(self.keys())")],
     """
from hftools.dataset.dataset import DataDict
d = DataDict()
d["b"] = 1
d.setdefault("a", 2)
assert list(d) == ["b", "a"], list(d)
""")
seed("c27-extendkeep", "C27", "extending comments by comments that have the "
     "same property with another value",
     "extend keeps its own value of a property both have",
     [(CM, "        for k, v in comment.property.items():\n            self.property[k] = v",
       "        for k, v in comment.property.items():\n            self.property.setdefault(k, v)")],
     """
from hftools.dataset.comments import Comments
a = Comments(["A: 1"]); b = Comments(["A: 2"])
a.extend(b)
assert a.property["A"] == 2, a.property
""")
seed("c27-datefirst", "C27", "a comment whose value reads as date and time "
     "or number", "the text value of a date is searched anywhere in the line",
     [(CM, "    if reg_datetime.match(value):\n        return np.datetime64(value)",
       "    if reg_datetime.search(value):\n        return np.datetime64(reg_datetime.search(value).group())")],
     """
from hftools.dataset.comments import Comments
a = Comments(["note = calibrated 2010-10-19 16:01:26 by hand"])
assert a.property["note"] == "calibrated 2010-10-19 16:01:26 by hand", a.property
""")
seed("c23-dimsindex", "C23", "looking up a dimension by name and a class it "
     "does not have", "dims_index falls back to the name when the class "
     "does not match",
     [(AO, "                elif isinstance(ax, cls):\n                    return idx",
       "                elif isinstance(ax, cls) or len(self.dims) == 1:\n                    return idx")],
     """
a = hfarray([1., 2.], dims=(DimSweep("f", 2),))
try:
    a.dims_index("f", DimRep)
except IndexError:
    pass
else:
    raise AssertionError
""")
seed("c01-unionorder", "C01", "operands with two sweep dims where the right "
     "one has them in the other order and a further one",
     "a dim is matched by name only, also when it is of another kind",
     [(AO, "class DimsList(list):\n    def __contains__(self, value):\n        if not isinstance(value, DimBase):\n            return False\n        for x in self:\n            if x.name == value.name and isinstance(x, value.__class__):",
       "class DimsList(list):\n    def __contains__(self, value):\n        if not isinstance(value, DimBase):\n            return False\n        for x in self:\n            if x.name == value.name and x.sortprio >= value.sortprio:")],
     """
a = hfarray(np.arange(2.), dims=(DimRep("f", 2),))
b = hfarray(np.arange(2.), dims=(DimSweep("f", 2),))
c = a + b
assert c.shape == (2, 2), c.shape
""")
FF = "file_formats/"
RB = FF + "readbase.py"
SI = "constants/si_units.py"
NP = "import numpy as np\n"
seed("c10-unitkept", "C10", "a column named with a unit that has a prefix, "
     "for a variable that already got a unit",
     "fix_unit scales the values but keeps an older unit",
     [(RB, "            db[vname].unit = unit\n",
       "            if db[vname].unit is None:\n"
       "                db[vname].unit = unit\n")],
     """
from hftools.file_formats.readbase import fix_unit
db = DataBlock()
db["P [mW]"] = hfarray([1., 2.], dims=(DimSweep("f", 2),), unit="V")
fix_unit(db, "P [mW]")
assert np.allclose(np.asarray(db.P), [1e-3, 2e-3])
assert db.P.unit == "W", db.P.unit
""")
seed("c10-argsign", "C10", "a file with Mag/Arg pairs of negative angle",
     "make_cplx loses the sign of the angle",
     [(RB, "                                  np.exp(np.pi / 180 * 1j *\n"
       "                                         dataset[alt[\"Arg\"][-1]]))",
       "                                  np.exp(np.pi / 180 * 1j *\n"
       "                                         abs(dataset[alt[\"Arg\"][-1]])))")],
     """
from hftools.file_formats.readbase import make_cplx
db = DataBlock()
f = DimSweep("f", 2)
db["Mag(x)"] = hfarray([1., 2.], dims=(f,))
db["Arg(x)"] = hfarray([90., -90.], dims=(f,))
make_cplx(db)
assert np.allclose(np.asarray(db.x), [1j, -2j]), db.x
""")
seed("c11-writeleak", "C11", "LexicalConfig.write raises half way (a value "
     "that can not be represented)", "the file written stays open when the "
     "dump raises",
     [(FF + "config.py", "        with io.open(filename, \"w\", encoding=\"utf-8\") as stream:\n"
       "            yaml.dump(self.convert_to_standard(), stream,\n"
       "                      Dumper=StandardDumper,\n"
       "                      default_flow_style=False)\n\n\nclass Config(dict):",
       "        stream = io.open(filename, \"w\", encoding=\"utf-8\")\n"
       "        yaml.dump(self.convert_to_standard(), stream,\n"
       "                  Dumper=StandardDumper,\n"
       "                  default_flow_style=False)\n"
       "        stream.close()\n\n\nclass Config(dict):")],
     """
import io, os, tempfile, shutil
import hftools.file_formats.config as c
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "a.yaml")
    open(p, "w").write("a: 1\\n")
    conf = c.LexicalConfig(p)
    opened = []
    class IO(object):
        def open(self, *k, **kw):
            f = io.open(*k, **kw)
            opened.append(f)
            return f
    c.io = IO()
    def boom(*k, **kw):
        raise ValueError
    c.yaml.dump = boom
    try:
        conf.write(os.path.join(d, "b.yaml"))
    except ValueError:
        pass
    assert opened and all(f.closed for f in opened)
finally:
    shutil.rmtree(d)
""", head="")
seed("c12-dimfmt", "C12", "a dimension that is not used by any variable and "
     "has an outputformat of its own",
     "the outputformat of a dimension with a unit is not stored",
     [(FF + "hdf5/v_02.py", "        if v.unit:\n            filehandle[ek].attrs[\"unit\"] = v.unit\n        if v.outputformat:\n            filehandle[ek].attrs[\"outputformat\"] = v.outputformat\n\n    if expandable:",
       "        if v.unit:\n            filehandle[ek].attrs[\"unit\"] = v.unit\n        elif v.outputformat:\n            filehandle[ek].attrs[\"outputformat\"] = v.outputformat\n\n    if expandable:")],
     """
import os, tempfile, shutil
import h5py
from hftools.file_formats.hdf5 import v_02
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "a.h5")
    db = DataBlock()
    db.x = hfarray([1., 2.], dims=(DimSweep("f", [1., 2.], unit="Hz",
                                            outputformat="%.3f"),))
    with h5py.File(p, "w") as fil:
        v_02.save_hdf5_handle(db, fil)
        assert fil["f"].attrs["outputformat"] == "%.3f"
finally:
    shutil.rmtree(d)
""")
seed("c13-appendlast", "C13", "appending more than twice",
     "the new index is the number of entries, not last + 1",
     [(FF + "hdf5/v_02.py", "    idx = filehandle[expanddim.name][-1] + 1\n",
       "    idx = filehandle[expanddim.name].shape[0]\n")],
     """
import os, tempfile, shutil
import h5py
from hftools.file_formats.hdf5 import v_02
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "a.h5")
    db = DataBlock()
    db.x = hfarray([1., 2.], dims=(DimSweep("f", [1., 2.]),))
    dim = DimRep("INDEX", [5])
    with h5py.File(p, "w") as fil:
        v_02.save_hdf5_handle(db, fil, expandable=True, expanddim=dim)
        v_02.append_hdf5(db, fil)
        assert list(fil["INDEX"][...]) == [5, 6], fil["INDEX"][...]
finally:
    shutil.rmtree(d)
""")
seed("c14-noisegrid", "C14", "noise data with the end points of the S data "
     "grid but other points between", "noise is put on the S grid when only "
     "the end points agree",
     [(FF + "touchstone.py", "len(f) == len(fn) and np.allclose(f, fn):",
       "len(f) == len(fn) and np.allclose(f[[0, -1]], fn[[0, -1]]):")],
     """
from hftools.file_formats.touchstone import proc_info
f = np.array([1., 2., 3.]); fn = np.array([1., 2.5, 3.])
db = proc_info("HZ S RI R 50", f, np.ones((3, 8)), fn, np.ones((3, 4)))
assert np.allclose(db.Rn.dims[0].data, fn), db.Rn.dims
""")
seed("c16-exp10", "C16", "formatting a number between 1000 and 9999 or below "
     "1", "numbers just below one keep no prefix",
     [(SI, "    if (e >= 0 and e < 3):\n", "    if (e >= -1 and e < 3):\n")],
     """
from hftools.constants.si_units import format_number
s = format_number(0.5, unit="Hz")
assert s == "500.000 mHz", s
""")
seed("c17-z0kept", "C17", "converting a matrix with a reference impedance "
     "other than 50 to one with an explicit other",
     "the reference impedance given is ignored when the data has its own",
     [(MP, "            if Z0 is None:\n                self.Z0 = getattr(data, \"Z0\", None)\n            else:\n                self.Z0 = Z0\n",
       "            self.Z0 = getattr(data, \"Z0\", Z0)\n")],
     """
from hftools.networks.multiports import *
z = ZArray(np.array([[[10., 2.], [3., 20.]]]) * 1., dims=(DimSweep("f", 1), DimMatrix_i("i", 2), DimMatrix_j("j", 2)))
s = SArray(z, Z0=100.)
assert s.Z0 == 100., s.Z0
""")
seed("c18-coordorder", "C18", "hyper merge of blocks that hold their partial "
     "dimensions in different orders", "coordinates are compared in the "
     "order each block has them",
     [(FF + "merge.py", "        coord.sort()\n", "")],
     """
from hftools.file_formats.merge import merge_blocks_to_association_list
a = DataBlock(); b = DataBlock()
a["p"] = DimPartial("p", [1.]); a["q"] = DimPartial("q", [2.])
b["q"] = DimPartial("q", [3.]); b["p"] = DimPartial("p", [1.])
for d in (a, b):
    d["x"] = hfarray([1.], dims=(DimSweep("f", [1.]),))
r = merge_blocks_to_association_list([a, b])
assert [tuple(n for n, _ in c) for c, _ in r["x"]] == [("p", "q")] * 2, r
""")
seed("c18-unitlast", "C18", "merging blocks whose variable has different "
     "units", "the unit of one of the blocks is used for all",
     [(FF + "merge.py", "    if len(set(unit)) == 1:\n", "    if len(set(unit) - set([None])) == 1:\n")],
     """
from hftools.file_formats.merge import merge_variable
f = DimSweep("f", [1., 2.])
v, _, _ = merge_variable([((("p", 1),), hfarray([1., 2.], dims=(f,), unit=None)),
                          ((("p", 2),), hfarray([1., 2.], dims=(f,), unit="V"))])
assert v.unit is None, v.unit
""")
seed("c21-splitcache", "C21", "creating two multiport arrays with different "
     "numbers of ports", "the accessors of one array are put in the class",
     [(MP, "            self._attrfuns = {}\n            names =", "            names =")],
     """
from hftools.networks.multiports import *
from hftools.networks import multiports as m
dims = (DimSweep("f", 1), DimMatrix_i("i", 3), DimMatrix_j("j", 3))
SArray(np.zeros((1, 3, 3)), dims=dims)
assert not m._MultiPortArray._attrfuns, m._MultiPortArray._attrfuns
""")
seed("c24-scopelist", "C24", "a key looked up from a section inside a list "
     "inside a list", "the scope ends at the second list",
     [(FF + "config.py", "        return find_next_dict(parent)\n", "        return getattr(parent, \"parent\", None)\n")],
     """
from hftools.file_formats.config import *
from hftools.file_formats.config import LexicalScopeDict, LexicalScopeList
top = LexicalScopeDict(a=1)
l1 = LexicalScopeList(); l1.parent = top
l2 = LexicalScopeList(); l2.parent = l1
d = LexicalScopeDict(); d.parent = l2
assert d["a"] == 1
""", head=NP)
seed("c24-mergefirst", "C24", "copying merged dictionaries",
     "a copy of merged dictionaries prefers the first one",
     [(FF + "config.py", "        m = MergedDicts()\n        m.dicts = self.dicts[:]\n", "        m = MergedDicts(*self.dicts)\n")],
     """
from hftools.file_formats.config import MergedDicts
m = MergedDicts(dict(a=1), dict(a=2))
assert m["a"] == 2 and m.copy()["a"] == 2
""", head=NP)
seed("c25-chopedge", "C25", "chop of a number exactly at the threshold",
     "values equal to the threshold are rounded to zero",
     [("math.py", "        x[abs(x) < threshold] = 0\n", "        x[abs(x) <= threshold] = 0\n")],
     """
from hftools.math import chop
x = hfarray([1., 2.], dims=(DimSweep("f", 2),))
assert np.asarray(chop(x, 1.))[0] == 1.
""")
seed("c26-lastcomplex", "C26", "an MDIF file with a complex column as the "
     "last one in a line", "real and imaginary part of a complex last column "
     "are swapped",
     [(FF + "mdif.py", "        dr = self.get_real(stream)\n        di = self.get_real(stream)\n", "        di = self.get_real(stream)\n        dr = self.get_real(stream)\n        dr, di = (di, dr) if stream else (dr, di)\n")],
     """
from hftools.file_formats.mdif import GetData
g = GetData([["freq(real)", "x(complex)"]])
d = g.parse_data(["1 2 3"])
assert d["x"] == [2 + 3j], d
""")
seed("c28-infzero", "C28", "an infinite impedance with imaginary part zero",
     "infinite impedance with zero imaginary part goes to "
     "the lower side",
     [("plotting/smith.py", "        if np.imag(z) >= 0:\n", "        if np.imag(z) > 0:\n")],
     """
import matplotlib
matplotlib.use("Agg")
from hftools.plotting.smith import z2gamma
assert z2gamma(complex(np.inf, 0)) == 1
assert z2gamma(complex(np.inf, 0)).imag == 0
""", head=NP)
seed("c22-unwraporder", "C22", "a projection given explicitly on axes that "
     "have one of their own", "db10 uses 10 log10 of the real part for "
     "complex data",
     [("plotting/helper.py", "db10=lambda x, y: (x, 10 * np.log10(abs(y))),", "db10=lambda x, y: (x, 10 * np.log10(abs(y.real))),")],
     """
import matplotlib
matplotlib.use("Agg")
import hftools.plotting.helper as h
y = hfarray([10j, 10 + 0j], dims=(DimSweep("f", 2),))
_, r = h._projfun["db10"](None, y)
assert np.allclose(np.asarray(r), 10), r
""")
seed("c20-loopname", "C20", "an MDIF block asked for that is not in the file",
     "the error for a missing MDIF block uses a name that is not defined",
     [(FF + "mdif.py", "                msg = \"%r not a block in mdif file %r\" % (blockname, filename)\n",
       "                msg = \"%r not a block in mdif file %r\" % (blockname, obj.filenames)\n")],
     """
import os, tempfile, shutil
from hftools.file_formats.mdif import ReadMDIFFileFormat, MDIFError
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "a.mdf")
    open(p, "w").write("VAR v(real) = 1\\nBEGIN blk\\n% f(real) x(real)\\n1 2\\n2 3\\nEND\\n")
    try:
        ReadMDIFFileFormat.read_file(p, blockname="nope")
    except MDIFError:
        pass
finally:
    shutil.rmtree(d)
""")
