AO = "dataset/arrayobj.py"
DS = "dataset/dataset.py"
M = [
 ("C01", "bad", AO, "        if isnumber(other):\n            a, b = self, other\n",
  "        if isnumber(other) or getattr(other, 'shape', None) == self.shape:\n            a, b = self, other\n"),
 ("C01", "bad", AO, "            a, b = make_same_dims(self, self.__class__(other))\n",
  "            other = self.__class__(other)\n            if self.ndim == other.ndim:\n                a, b = self, other\n            else:\n                a, b = make_same_dims(self, other)\n"),
 ("C01", "ok", AO, "            a, b = make_same_dims(self, self.__class__(other))\n",
  "            other = self.__class__(other)\n            newdims = dims_union(self, other)\n            a = change_shape(self, newdims)\n            b = change_shape(other, newdims)\n"),
 ("C01", "bad", AO, "    @check_instance\n    def __pow__", "    def __pow__"),
 ("C01", "bad", AO, "        return np.power(other, self)", "        return np.power(self, other)"),
 ("C01", "bad", AO, "        return (-self).__add__(other)", "        return self.__sub__(other)"),
 ("C01", "ok", AO, "        return (-self).__add__(other)", "        return ndarray.__sub__(other, self)"),
 ("C01", "bad", AO, "newselfshape.append(x.shape[selfdims.matching_index(dim)])", "newselfshape.append(x.shape[len(neworder)])"),
 ("C01", "bad", AO, "    newself.dims = Dims(newdims)", "    newself.dims = Dims(x.dims)"),
 ("C01", "bad", AO, "    def matching_index(self, value):\n        if isinstance(value, DimBase):\n            for idx, x in enumerate(self):\n                if x.name == value.name and isinstance(x, value.__class__):",
  "    def matching_index(self, value):\n        if isinstance(value, DimBase):\n            for idx, x in enumerate(self):\n                if x.name == value.name:"),
 ("C01", "bad", AO, "            if dim not in newinfo:\n", "            if dim not in newinfo and dim.data.size > 1:\n"),
 ("C01", "ok", AO, "    for dim in newdims:\n        if dim in x.dims:\n            newselfshape.append(x.shape[selfdims.matching_index(dim)])\n            neworder.append(selfdims.matching_index(dim))\n        else:\n            newselfshape.append(1)\n",
  "    for dim in newdims:\n        if dim not in selfdims:\n            newselfshape.append(1)\n            continue\n        pos = selfdims.matching_index(dim)\n        neworder.append(pos)\n        newselfshape.append(x.shape[pos])\n"),
]

CM = "dataset/comments.py"
M += [
 ("C06", "bad", DS, "            out.comments = self.comments.copy()\n        out.vardata = self.vardata.copy()", "            out.comments = self.comments\n        out.vardata = self.vardata.copy()"),
 ("C06", "bad", DS, "out = self.__class__([(k, v.copy()) for k, v in self.items()])", "out = self.__class__([(k, v if v.ndim == 0 else v.copy()) for k, v in self.items()])"),
 ("C06", "bad", DS, "out = self.__class__([(k, v.copy()) for k, v in self.items()])", "out = self.__class__(self)"),
 ("C06", "bad", DS, "        out.order = self.order[:]\n        return out\n\n    def keys", "        out.order = self.order\n        return out\n\n    def keys"),
 ("C06", "bad", DS, "        out.vardata = self.vardata.copy()", "        out.vardata = self.vardata.view()"),
 ("C06", "bad", DS, "        out.ivardata = self.ivardata.copy()\n        out.xname = self.xname\n        out._outputformat = self._outputformat\n        return out\n\n    def view", "        out.ivardata = self.ivardata\n        out.xname = self.xname\n        out._outputformat = self._outputformat\n        return out\n\n    def view"),
 ("C06", "bad", DS, "        out = DataBlock()\n        out.blockname = self.blockname\n        if self.comments:\n            out.comments = self.comments.copy()\n", "        out = DataBlock()\n        if self.comments:\n            out.blockname = self.blockname\n            out.comments = self.comments.copy()\n"),
 ("C06", "bad", CM, "        out.property = self.property.copy()", "        out.property = self.property"),
 ("C06", "bad", AO, "        return self.__class__(self)\n", "        return self.__class__(self, copy=self.flags.owndata)\n"),
 ("C06", "ok", AO, "        return self.__class__(self)\n", "        return self.__class__(np.array(self), dims=self.dims, unit=self.unit, outputformat=self.outputformat)\n"),
 ("C06", "ok", DS, "        out = self.__class__([(k, v.copy()) for k, v in self.items()])\n        out.order = self.order[:]", "        out = self.__class__()\n        for k, v in self.items():\n            out[k] = v.copy()\n        out.order = list(self.order)"),
 ("C06", "ok", DS, "        out = DataBlock()\n        out.blockname = self.blockname\n        if self.comments:\n            out.comments = self.comments.copy()\n", "        out = DataBlock()\n        comments = self.comments\n        if comments is not None and comments:\n            out.comments = comments.copy()\n        out.blockname = self.blockname\n"),
 ("C05", "bad", DS, "            localdim = self.ivardata[boolarray.dims[0].name]", "            localdim = self.ivardata[boolarray.dims[0].name]\n            boolarray.unit = localdim.unit"),
 ("C05", "bad", DS, "            data = self.vardata[v].view()\n            try:\n                i = data.dims_index(dimname)", "            data = self.vardata[v]\n            data.outputformat = self.outputformat\n            try:\n                i = data.dims_index(dimname)"),
 ("C05", "bad", DS, "                out[v] = data.take(sortorder, i)", "                data[...] = data.take(sortorder, i)\n                out[v] = data"),
 ("C05", "bad", DS, "        dims = []\n        sortdata = []\n", "        dims = []\n        sortdata = []\n        dimnames.sort()\n"),
 ("C05", "bad", "math.py", "def dBinv(x):\n", "def dBinv(x):\n    x = np.asanyarray(x)\n    x *= 1\n"),
 ("C05", "bad", "file_formats/touchstone.py", "def save_touchstone(db, filename):\n", "def save_touchstone(db, filename):\n    db.comments = None\n"),
 ("C05", "ok", DS, "        dims = []\n        sortdata = []\n", "        dims = []\n        sortdata = []\n        dimnames = list(dimnames)\n        dimnames.reverse()\n        dimnames.reverse()\n"),
]

DM = "dataset/dim.py"
M += [
 ("C07", "bad", DM, "        self._data = tuple(flatten(dim_data))", "        self._data = np.array(list(flatten(dim_data)))"),
 ("C07", "bad", DM, "        self._data = tuple(flatten(dim_data))", "        self._data = list(flatten(dim_data))"),
 ("C07", "bad", DM, "    @property\n    def unit(self):\n        return self._unit\n", "    @property\n    def unit(self):\n        return self._unit\n\n    @unit.setter\n    def unit(self, value):\n        self._unit = value\n"),
 ("C07", "bad", DM, "        a = (self.sortprio, self.name, self.__class__, self._data,\n             self._unit, self._outputformat)\n        try:\n            b = (other.sortprio, other.name, other.__class__, other._data,\n                 other._unit, self._outputformat)\n        except AttributeError:\n            a = self.name\n            b = other\n        return a == b", "        a = (self.sortprio, self.name, self.__class__, self._data)\n        try:\n            b = (other.sortprio, other.name, other.__class__, other._data)\n        except AttributeError:\n            a = self.name\n            b = other\n        return a == b"),
 ("C07", "bad", DM, "        return hash((self.sortprio, self.name, self.__class__, self._data,\n                     self._unit, self._outputformat))", "        return hash((self.sortprio, self.name, self.__class__, self._data,\n                     self._unit, self._outputformat, id(self)))"),
 ("C07", "bad", DM, "class DimPartial(DimSweep):\n    pass\n", "class DimPartial(DimSweep):\n    def __eq__(self, other):\n        return self.name == getattr(other, 'name', other)\n"),
 ("C07", "bad", DM, "            dim_unit = Name.unit\n", "            dim_unit = unit\n"),
 ("C07", "bad", DM, "        if data is not None:\n            dim_data = data\n", "        if data is not None:\n            dim_data = data\n            dim_outputformat = outputformat\n"),
 ("C07", "bad", DM, "            a = self.__class__(self.name, self.data[index], unit=self.unit,\n                               outputformat=self.outputformat)\n            return a\n        elif", "            a = DimSweep(self.name, self.data[index], unit=self.unit,\n                               outputformat=self.outputformat)\n            return a\n        elif"),
 ("C07", "bad", DM, "        elif isinstance(index, np.ndarray):\n            a = self.__class__(self.name, self.data[index], unit=self.unit,\n                               outputformat=self.outputformat)", "        elif isinstance(index, np.ndarray):\n            a = self.__class__(self.name, self.data[index],\n                               outputformat=self.outputformat)"),
 ("C07", "bad", DS, "        self.ivardata.rename(olddim.name, newdim.name)", "        newdim._unit = newdim._unit or olddim._unit\n        self.ivardata.rename(olddim.name, newdim.name)"),
 ("C07", "bad", DM, "        d = np.asarray(self._data)\n        return d\n", "        if getattr(self, '_cache', None) is None:\n            self._cache = np.asarray(self._data)\n        return self._cache\n") if 0 else
 ("C07", "bad", DM, "            d = np.asarray(self._data)\n        return d\n", "            if getattr(self, '_cache', None) is None:\n                self._cache = np.asarray(self._data)\n            d = self._cache\n        return d\n"),
 ("C07", "ok", DM, "        self._data = tuple(flatten(dim_data))", "        values = flatten(dim_data)\n        self._data = tuple(v for v in values)"),
 ("C07", "ok", DM, "        return hash((self.sortprio, self.name, self.__class__, self._data,\n                     self._unit, self._outputformat))", "        key = (self.sortprio, self.name, self.__class__, self._data)\n        return hash(key + (self._unit, self._outputformat))"),
 ("C07", "ok", DM, "        elif isinstance(index, slice):\n            a = self.__class__(self.name, self.data[index], unit=self.unit,\n                               outputformat=self.outputformat)\n            return a\n        elif isinstance(index, np.ndarray):\n            a = self.__class__(self.name, self.data[index], unit=self.unit,\n                               outputformat=self.outputformat)\n            return a", "        elif isinstance(index, (slice, np.ndarray)):\n            return self.__class__(self, data=self.data[index], outputformat=self.outputformat)"),
 ("C07", "ok", DM, "        a = (self.sortprio, self.name, self.__class__, self._data,\n             self._unit, self._outputformat)\n        try:\n            b = (other.sortprio, other.name, other.__class__, other._data,\n                 other._unit, self._outputformat)\n        except AttributeError:\n            a = self.name\n            b = other\n        return a == b", "        if not isinstance(other, DimBase):\n            return self.name == other\n        return (self.sortprio == other.sortprio and self.name == other.name and\n                self.__class__ == other.__class__ and self._data == other._data and self._unit == other._unit)"),
]
M += [
 ("C09", "bad", DS, "        value = dict.pop(self, key, *default)\n        if key in self.order:\n", "        value = dict.pop(self, key, *default)\n        if key in self.order and not default:\n"),
 ("C09", "bad", DS, "    def clear(self):\n        dict.clear(self)\n        del self.order[:]\n\n", ""),
 ("C09", "bad", DS, "        dict.__setitem__(self, key, value)\n        if key not in self.order:\n            self.order[:] = self.keys()", "        if key not in self:\n            self.order.append(key)\n        dict.__setitem__(self, key, value)\n        if value is None:\n            return\n") if 0 else
 ("C09", "bad", DS, "        dict.__setitem__(self, key, value)\n        if key not in self.order:\n            self.order[:] = self.keys()", "        if key not in self.order:\n            dict.__setitem__(self, key, value)\n        self.order.append(key)"),
 ("C09", "bad", DS, "            self.order[self.order.index(oldname)] = newname", "            self.order.append(newname)"),
 ("C09", "bad", DS, "        del self[oldname]\n        self[newname] = vdata", "        dict.__delitem__(self, oldname)\n        self[newname] = vdata"),
 ("C09", "bad", DS, "        del self[oldname]\n        self[newname] = vdata", "        self[newname] = vdata"),
 ("C09", "bad", DS, "        return [self[v] for v in self]", "        return [v for v in dict.values(self)]"),
 ("C09", "bad", DS, "        return [(v, self[v]) for v in self]", "        return sorted((v, self[v]) for v in self)"),
 ("C09", "bad", DS, "        out = self.order[:]\n        for k in dict.keys(self):", "        out = self.order\n        for k in dict.keys(self):"),
 ("C09", "bad", DS, "        if key in self:\n            dict.__delitem__(self, key)\n        if key in self.order:\n            del self.order[self.order.index(key)]", "        if key in self.order:\n            del self.order[self.order.index(key)]\n        elif key in self:\n            dict.__delitem__(self, key)"),
 ("C09", "ok", DS, "        if key in self:\n            dict.__delitem__(self, key)\n        if key in self.order:\n            del self.order[self.order.index(key)]", "        if key in self.order:\n            self.order.remove(key)\n        if key in self:\n            super(DataDict, self).__delitem__(key)"),
 ("C09", "ok", DS, "        self.order[:] = self.keys()\n        if newname not in self.order:\n            self.order[self.order.index(oldname)] = newname\n        del self[oldname]\n        self[newname] = vdata", "        position = self.order.index(oldname)\n        if newname not in self.order:\n            self.order[position] = newname\n        self.__delitem__(oldname)\n        self.__setitem__(newname, vdata)"),
 ("C09", "ok", DS, "        return [(v, self[v]) for v in self]", "        return list(zip(self.keys(), self.values()))"),
 ("C09", "ok", DS, "        dict.__setitem__(self, key, value)\n        if key not in self.order:\n            self.order[:] = self.keys()", "        dict.__setitem__(self, key, value)\n        self._note(key)\n\n    def _note(self, key):\n        if key not in self.order:\n            self.order = self.keys()"),
]
LG = "logger.py"
MP = "networks/multiports.py"
M += [
 ("C19", "bad", LG, "    if not _stream_handler:\n        _stream_handler = logging.StreamHandler(sys.stderr)\n        logger.addHandler(_stream_handler)", "    if not _stream_handler:\n        _stream_handler = logging.StreamHandler(sys.stderr)\n    logger.addHandler(_stream_handler)"),
 ("C19", "bad", LG, "        _stream_handler = logging.StreamHandler(sys.stderr)\n        logger.addHandler(_stream_handler)", "        _stream_handler = logging.StreamHandler(sys.stderr)\n        logger.addHandler(logging.StreamHandler(sys.stderr))"),
 ("C19", "bad", LG, "        logger.removeHandler(_stream_handler)\n        _stream_handler = None", "        logger.removeHandler(_stream_handler)"),
 ("C19", "bad", LG, "    if _stream_handler:\n        logger.removeHandler(_stream_handler)", "    if _stream_handler:\n        if logger.level == logging.INFO:\n            logger.removeHandler(_stream_handler)"),
 ("C19", "ok", LG, "    if not _stream_handler:\n        _stream_handler = logging.StreamHandler(sys.stderr)\n        logger.addHandler(_stream_handler)", "    if _stream_handler is not None:\n        return\n    handler = logging.StreamHandler(sys.stderr)\n    logger.addHandler(handler)\n    _stream_handler = handler"),
 ("C21", "bad", MP, "            self._attrfuns = {}\n            names", "            names"),
 ("C21", "bad", DS, "    def format_table(self, tofmts, headers, outheaders=[], alignment=None):\n", "    def format_table(self, tofmts, headers, outheaders=[], alignment=None):\n        outheaders.append('')\n"),
 ("C21", "bad", "math.py", "def chop(x, threshold=1e-16):\n", "_SEEN = {}\n\n\ndef chop(x, threshold=1e-16):\n    _SEEN[id(x)] = threshold\n"),
 ("C21", "bad", "dataset/helper.py", "    return _varname_unit_guess_db.get(varname, None)", "    return _varname_unit_guess_db.setdefault(varname, None)"),
 ("C21", "bad", AO, "    newself.dims = Dims(newdims)", "    newself.dims = Dims(newdims)\n    x.__class__.default_dim = tuple(newdims)"),
 ("C21", "ok", "dataset/helper.py", "    return _varname_unit_guess_db.get(varname, None)", "    table = dict(_varname_unit_guess_db)\n    table.setdefault(varname, None)\n    return table[varname]"),
 ("C21", "ok", "dataset/helper.py", "    global _varname_unit_guess_db\n    _varname_unit_guess_db[varname] = unit", "    _varname_unit_guess_db.update({varname: unit})"),
 ("C09", "bad", DS, "            self.order[:] = self.keys()\n\n    def setdefault", "            self.order.append(key)\n\n    def setdefault"),
 ("C09", "bad", DS, "        for key, value in dict(*k, **kw).items():\n            self[key] = value\n", "        dict.update(self, *k, **kw)\n"),
 ("C09", "ok", DS, "        for key, value in dict(*k, **kw).items():\n            self[key] = value\n", "        dict.update(self, *k, **kw)\n        self.order[:] = self.keys()\n"),
]
M += [
 ("C02", "bad", AO, "dims=[self.dims[i] for i in order], copy=False)", "dims=self.dims, copy=False)"),
 ("C02", "bad", AO, "dims=[self.dims[i] for i in order], copy=False)", "dims=self.dims[::-1], copy=False)"),
 ("C02", "bad", AO, "dims=[self.dims[i] for i in order], copy=False)", "dims=[self.dims[order.index(i)] for i in range(self.ndim)], copy=False)"),
 ("C02", "ok", AO, "        return self.__class__(ndarray.transpose(self, *order),\n                              dims=[self.dims[i] for i in order], copy=False)", "        newdims = []\n        for axis in order:\n            newdims.append(self.dims[axis])\n        data = ndarray.transpose(self, *order)\n        return self.__class__(data, dims=Dims(newdims), copy=False)"),
 ("C02", "bad", AO, "if self.shape[idx] != 1]", "if len(ax.data) != 1]") if 0 else ("C02", "bad", AO, "if self.shape[idx] != 1]", "if self.shape[idx] > 0]"),
 ("C02", "bad", AO, "if idx not in dimidxs]", "if idx in dimidxs]"),
 ("C02", "ok", AO, "            newinfo = [ax for idx, ax in enumerate(self.dims)\n                       if self.shape[idx] != 1]", "            newinfo = [ax for size, ax in zip(self.shape, self.dims)\n                       if size != 1]"),
 ("C02", "ok", AO, "            newinfo = [ax for idx, ax in enumerate(self.dims)\n                       if idx not in dimidxs]", "            newinfo = []\n            for idx, ax in enumerate(self.dims):\n                if idx in dimidxs:\n                    continue\n                newinfo.append(ax)"),
 ("C02", "bad", AO, "        newdims[axis] = newdim\n", "        newdims[0] = newdim\n"),
 ("C02", "bad", AO, "        newdims[axis] = newdim\n", "        newdims[axis] = olddim\n"),
 ("C02", "bad", AO, "data=np.asarray(olddim.data)[indices])", "data=np.sort(np.asarray(olddim.data))[:len(indices)])"),
 ("C02", "ok", AO, "data=np.asarray(olddim.data)[indices])", "data=np.asarray(olddim.data).take(indices))"),
 ("C02", "bad", AO, "        dims.insert(axis, dim)", "        dims.insert(0, dim)"),
 ("C02", "bad", AO, "            out = out.repeat(len(dim.data), axis)", "            out = out.repeat(len(dim.data), 0)"),
 ("C02", "bad", AO, "        for dim in order:\n            neworder.append(self.dims.index(dim))\n            del infos[infos.index(dim)]\n        for dim in infos:\n            neworder.append(self.dims.index(dim))", "        for dim in order:\n            del infos[infos.index(dim)]\n        for dim in infos:\n            neworder.append(self.dims.index(dim))\n        for dim in order:\n            neworder.append(self.dims.index(dim))"),
 ("C02", "ok", AO, "        for dim in infos:\n            neworder.append(self.dims.index(dim))\n        return", "        neworder.extend([self.dims.index(dim) for dim in infos])\n        return"),
 ("C02", "bad", AO, "(DimMatrix_i(di.name, dj.data),\n                                   DimMatrix_j(dj.name, di.data))", "(DimMatrix_i(di.name, di.data),\n                                   DimMatrix_j(dj.name, dj.data))"),
 ("C02", "bad", AO, "                dims.append(dim[idx])\n", "                dims.append(dim)\n"),
 ("C02", "bad", AO, "                dims.append(dim[idx])\n", "                dims.append(dim[:len(dim.data[idx])])\n"),
 ("C02", "bad", AO, "            if isinstance(idx, integer_types):\n                continue\n            elif", "            if isinstance(idx, integer_types) and self.ndim > 1:\n                continue\n            elif") if 0 else ("C02", "bad", AO, "                    dim = dim[np.arange(len(dim.data))[idx]]\n", "                    dim = dim[:len(idx)]\n"),
 ("C02", "bad", AO, "                                       data=np.array(dim.data)[indices[0]])", "                                       data=np.array(dim.data)[:int(np.sum(indices[0]))])"),
 ("C02", "bad", AO, "        if len(self.dims) != self.ndim:\n            raise", "        if len(self.dims) < self.ndim:\n            raise"),
 ("C02", "bad", AO, "        subarr.verify_dimension()\n", "        if dims is not data:\n            subarr.verify_dimension()\n"),
 ("C02", "ok", AO, "        if len(self.dims) != self.ndim:\n            raise HFArrayShapeDimsMismatchError", "        if len(self.dims) == self.ndim:\n            return\n        raise HFArrayShapeDimsMismatchError"),
 ("C02", "bad", AO, "        r = np.asarray(self).mean(dimidx, dtype=dtype, out=out, keepdims=True)\n        res = hfarray(r, dims=self.dims, unit=self.unit)\n        if not keepdims:\n            res = res.squeeze(axis=dimidx)", "        r = np.asarray(self).mean(dimidx, dtype=dtype, out=out, keepdims=True)\n        res = hfarray(r, dims=self.dims, unit=self.unit)\n        if not keepdims:\n            res = res.squeeze()"),
 ("C02", "bad", AO, "            outidx.append(ax + len(a.dims) if ax < 0 else ax)", "            outidx.append(ax)"),
 ("C02", "bad", AO, "            if ax.name == name:\n                if cls is None:\n                    return idx", "            if ax.name == name:\n                if cls is None:\n                    return idx + 1"),
 ("C02", "bad", "math.py", "    return hfarray(result2, dims=data.dims)", "    return hfarray(result2, dims=data.dims[::-1])"),
 ("C02", "bad", DS, "    newdims = olddims[:dimidx] + (newx,) + olddims[dimidx + 1:]", "    newdims = (newx,) + olddims[:dimidx] + olddims[dimidx + 1:]"),
 ("C02", "bad", DS, ".take(bools.argmax(axis=1), dimidx)", ".take(bools.argmax(axis=1), 0)"),
 ("C02", "bad", DS, "data = interp1d(y.dims[dimidx].data, y, axis=dimidx)(newx.data)", "data = interp1d(y.dims[dimidx].data, y, axis=0)(newx.data)"),
]
M += [
 ("C03", "bad", AO, "r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=ddof,", "r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=0,"),
 ("C03", "bad", AO, "r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=ddof,", "r = np.asarray(self).var(dimidx, dtype=dtype, out=out, ddof=ddof,"),
 ("C03", "bad", AO, "r = np.asarray(self).mean(dimidx, dtype=dtype, out=out, keepdims=True)", "r = np.asarray(self).mean(dimidx, out=out, keepdims=True)"),
 ("C03", "bad", AO, "r = np.asarray(self).max(dimidx, out=out, keepdims=True)", "r = np.asarray(abs(self)).max(dimidx, out=out, keepdims=True)"),
 ("C03", "bad", AO, "r = np.asarray(self).max(dimidx, out=out, keepdims=True)", "r = np.asarray(self).max(dimidx and dimidx[:1], out=out, keepdims=True)"),
 ("C03", "bad", AO, "        except IndexError:\n            if dimerror:\n                raise\n            else:\n                return self\n        r = np.asarray(self).min", "        except IndexError:\n            if not dimerror:\n                raise\n            else:\n                return self\n        r = np.asarray(self).min"),
 ("C03", "bad", AO, "        except IndexError:\n            if dimerror:\n                raise\n            else:\n                return self\n        r = np.asarray(self).min", "        except IndexError:\n            return self\n        r = np.asarray(self).min"),
 ("C03", "bad", AO, "        return (abs(self) ** 2).sum(axis) ** 0.5", "        return (self ** 2).sum(axis) ** 0.5"),
 ("C03", "bad", AO, "        return (abs(self) ** 2).sum(axis) ** 0.5", "        return (abs(self) ** 2).sum() ** 0.5"),
 ("C03", "bad", AO, "        return (abs(self) ** 2).sum(axis) ** 0.5", "        return (abs(self) ** 2).mean(axis) ** 0.5"),
 ("C03", "ok", AO, "        return (abs(self) ** 2).sum(axis) ** 0.5", "        mag = abs(self)\n        return np.sqrt((mag * mag).sum(axis=axis))"),
 ("C03", "bad", AO, "                outaxis.append(dim)\n                outidx.append(dimidx)\n", "                outaxis.append(dim)\n                outidx.append(dimidx)\n                break\n"),
 ("C03", "bad", AO, "        elif len(outaxis) == 1:\n            return outaxis[0]", "        elif len(outaxis) >= 1:\n            return outaxis[0]"),
 ("C03", "bad", AO, "    def cumsum(self, axis=0,", "    def cumsum(self, axis=-1,"),
 ("C03", "bad", AO, "    def var(self, axis=None, dtype=None, out=None, ddof=0,", "    def var(self, axis=None, dtype=None, out=None, ddof=1,"),
 ("C03", "bad", AO, "        result = np.asarray(self).cumprod(axis=self.dims_index(axis),\n                                          dtype=dtype, out=out)", "        result = np.asarray(self).cumprod(axis=0,\n                                          dtype=dtype, out=out)"),
 ("C03", "ok", AO, "        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, ddof=ddof,\n                                 keepdims=True)\n        res = hfarray(r, dims=self.dims)\n        if not keepdims:\n            res = res.squeeze(axis=dimidx)\n        return res", "        return self._red('var', dimidx, keepdims, dtype=dtype, out=out, ddof=ddof)\n\n    def _red(self, name, dimidx, keepdims, **kw):\n        r = getattr(np.asarray(self), name)(dimidx, keepdims=True, **kw)\n        res = hfarray(r, dims=self.dims)\n        if keepdims:\n            return res\n        return res.squeeze(axis=dimidx)"),
 ("C03", "ok", AO, "        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, ddof=ddof,\n                                 keepdims=True)", "        data = np.asarray(self)\n        opts = dict(dtype=dtype, out=out, ddof=ddof)\n        r = data.var(axis=dimidx, keepdims=True, **opts)"),
 ("C03", "ok", AO, "        try:\n            dims, dimidx = multiple_axis_handler(self, axis)\n        except IndexError:\n            if dimerror:\n                raise\n            else:\n                return self\n        r = np.asarray(self).min", "        try:\n            _, dimidx = multiple_axis_handler(self, axis)\n        except IndexError:\n            if not dimerror:\n                return self\n            raise\n        r = np.asarray(self).min"),
 ("C03", "ok", AO, "        r = np.asarray(self).max(dimidx, out=out, keepdims=True)", "        r = np.max(np.asarray(self), axis=dimidx, out=out, keepdims=True)"),
]
M += [
 ("C04", "bad", AO, "        r = np.asarray(self).max(dimidx, out=out, keepdims=True)\n        res = hfarray(r, dims=self.dims, unit=self.unit)", "        r = np.asarray(self).max(dimidx, out=out, keepdims=True)\n        res = hfarray(r, dims=self.dims)"),
 ("C04", "bad", AO, "            return self.__class__(ndarray.view(self, dtype=dtype),\n                                  dims=self.dims, copy=False)", "            return self.__class__(np.asarray(self).view(dtype),\n                                  dims=self.dims, copy=False)"),
 ("C04", "bad", AO, "        return self.__class__(ndarray.transpose(self, *order),", "        return self.__class__(np.asarray(self).transpose(*order),"),
 ("C04", "bad", AO, "                out.unit = self.unit\n            return out\n        return __getitem__", "                out.unit = None\n            return out\n        return __getitem__"),
 ("C04", "bad", AO, "        if unit is None and hasattr(data, \"unit\"):", "        if hasattr(data, \"unit\"):"),
 ("C04", "bad", AO, "        if unit is None and hasattr(data, \"unit\"):\n            subarr.__dict__[\"unit\"] = data.unit\n        else:\n            subarr.__dict__[\"unit\"] = unit", "        subarr.__dict__[\"unit\"] = unit"),
 ("C04", "bad", AO, "        if outputformat is not None:\n            subarr.outputformat = outputformat\n        elif hasattr(data, \"outputformat\"):\n            subarr.outputformat = data.outputformat", "        if hasattr(data, \"outputformat\"):\n            subarr.outputformat = data.outputformat\n        elif outputformat is not None:\n            subarr.outputformat = outputformat"),
 ("C04", "ok", AO, "        if unit is None and hasattr(data, \"unit\"):\n            subarr.__dict__[\"unit\"] = data.unit\n        else:\n            subarr.__dict__[\"unit\"] = unit", "        if unit is None:\n            unit = getattr(data, \"unit\", None)\n        subarr.unit = unit"),
 ("C04", "bad", AO, "                outputformat = dims[0].outputformat", "                outputformat = dims[0].unit"),
 ("C04", "bad", AO, "                                ndmin=ndmin, unit=unit,", "                                ndmin=ndmin, unit=None,"),
 ("C04", "bad", AO, "        self.__dict__[\"unit\"] = getattr(obj, \"unit\", None)", "        self.__dict__[\"unit\"] = None"),
 ("C04", "bad", DS, "                             unit=data.unit,\n", ""),
 ("C04", "bad", DS, "                             outputformat=data.outputformat)", "                             outputformat=self.outputformat)"),
 ("C04", "bad", DS, "                out[v] = data.take(sortorder, i)", "                out[v] = hfarray(np.asarray(data).take(sortorder, i), dims=data.dims)"),
 ("C04", "bad", DS, "    return hfarray(data, dims=newdims, unit=y.unit,\n                   outputformat=y.outputformat)", "    return hfarray(data, dims=newdims, unit=newx.unit,\n                   outputformat=newx.outputformat)"),
 ("C04", "ok", DS, "    return hfarray(data, dims=newdims, unit=y.unit,\n                   outputformat=y.outputformat)", "    out = hfarray(data, dims=newdims)\n    out.unit = y.unit\n    out.outputformat = y.outputformat\n    return out"),
 ("C04", "bad", AO, "        return self.__class__(result, dims=self.dims, copy=False,\n                              unit=self.unit)", "        return self.__class__(result, dims=self.dims, copy=False)"),
 ("C04", "bad", AO, "        out.outputformat = self.outputformat\n        return out\n\n\ndef axis_handler", "        return out\n\n\ndef axis_handler") if 0 else ("C04", "bad", AO, "out = self[(slice(None), ) * axis + (None, )]", "out = np.asarray(self)[(slice(None), ) * axis + (None, )]", "        out = self.__class__(out, dims=dims, copy=False, unit=self.unit)\n        out.outputformat", "        out = self.__class__(out, dims=dims, copy=False)\n        out.outputformat"),
 ("C04", "ok", AO, "        data = np.ndarray.take(self, indices, axis, out, mode)\n        newdims = list(self.dims)\n        newdims[axis] = newdim\n        data.dims = Dims(newdims)\n        return data", "        data = np.asarray(self).take(indices, axis, out, mode)\n        newdims = list(self.dims)\n        newdims[axis] = newdim\n        return self.__class__(data, dims=newdims, copy=False, unit=self.unit,\n                              outputformat=self.outputformat)"),
]
M += [
 ("C08", "bad", DS, "        newdim = olddim.__class__(olddim, data=olddim.data[boolarray])", "        newdim = olddim.__class__(olddim, data=olddim.data[:int(boolarray.sum())])"),
 ("C08", "bad", DS, "            utdata = hfarray(array(data)[boolarray], dims=newinfo,", "            utdata = hfarray(array(data)[:int(np.sum(boolarray))], dims=newinfo,"),
 ("C08", "bad", DS, "            utdata = hfarray(array(data)[boolarray], dims=newinfo,", "            utdata = hfarray(array(data)[~boolarray], dims=newinfo,"),
 ("C08", "bad", DS, "            except IndexError:  # This variable does not sweep in boolarray dim\n                out[v] = data\n                continue", "            except IndexError:  # This variable does not sweep in boolarray dim\n                continue"),
 ("C08", "bad", DS, "            utdata = utdata.reorder_dimensions(*dimorder)\n", ""),
 ("C08", "bad", DS, "        out.comments = self.comments\n        out.xname = self.xname\n\n        olddim = boolarray", "        out.xname = self.xname\n\n        olddim = boolarray"),
 ("C08", "bad", DS, "            data = data.transpose(*reorder)\n", "            data = data.transpose(*sorted(reorder))\n"),
 ("C08", "bad", DS, "        data = self[dimname][sortorder]\n", "        data = np.sort(self[dimname])\n"),
 ("C08", "bad", DS, "                out[v] = data.take(sortorder, i)", "                out[v] = data.take(sortorder[::-1], i)"),
 ("C08", "bad", DS, "                out[v] = data.take(sortorder, i)", "                out[v] = data.take(sortorder, 0)"),
 ("C08", "bad", DS, "        for v in self.vardata.values():\n            v.replace_dim(olddim, newdim)", "        for v in self.vardata.values():\n            if v.dims[0] == olddim:\n                v.replace_dim(olddim, newdim)"),
 ("C08", "bad", DS, "        self.ivardata.rename(olddim.name, newdim.name)\n        self.ivardata[newdim.name] = newdim", "        del self.ivardata[olddim.name]\n        self.ivardata[newdim.name] = newdim"),
 ("C08", "bad", DS, "                for dim in value.dims:\n                    if dim.name not in self.ivardata:\n                        self.ivardata[dim.name] = dim", "                for dim in value.dims[:-1]:\n                    if dim.name not in self.ivardata:\n                        self.ivardata[dim.name] = dim"),
 ("C08", "ok", DS, "                for dim in value.dims:\n                    if dim.name not in self.ivardata:\n                        self.ivardata[dim.name] = dim", "                for dim in value.dims:\n                    self.ivardata.setdefault(dim.name, dim)"),
 ("C08", "bad", DS, "        return res.groups()[0], tuple(int(x) - 1 for x in res.groups()[2])", "        return res.groups()[0], tuple(int(x) - 1 for x in res.groups()[2][::-1])"),
 ("C08", "bad", DS, "out[formatelement(k, i, j)] = v[..., i - 1, j - 1]", "out[formatelement(k, i, j)] = v[..., j - 1, i - 1]"),
 ("C08", "bad", DS, "                idx = (Ellipsis,) + elem\n                self.vardata[mname][idx] = value", "                idx = (Ellipsis,) + elem[::-1]\n                self.vardata[mname][idx] = value"),
 ("C08", "bad", DS, "                if varname in self and self[varname].unit is None:", "                if varname in self:"),
 ("C08", "bad", DS, "            newdim = olddim.__class__(olddim, outputformat=value)\n            self.replace_dim(olddim, newdim)", "            newdim = olddim.__class__(olddim, outputformat=value)\n            self.ivardata[olddim.name] = newdim"),
 ("C08", "bad", DS, "            newdim = olddim.__class__(olddim, outputformat=format)\n            self.replace_dim(olddim, newdim)", "            newdim = olddim.__class__(olddim, outputformat=format)\n            self.ivardata[name] = newdim"),
 ("C08", "bad", DS, "            out[x] = remove_rep(self[x], newdimname)", "            if len(self[x].dims) > 1:\n                out[x] = remove_rep(self[x], newdimname)"),
 ("C08", "bad", DS, "        db.comments = self.comments\n        for v", "        for v"),
 ("C08", "bad", DS, "            v = hfarray(v.take(sortorderidx, axis=i), copy=False, order=\"C\")", "            v = hfarray(v, copy=True, order=\"C\")"),
 ("C08", "bad", DS, "            new_shape = v.shape[:i] + dims_shape + v.shape[i + 1:]\n            v.shape = new_shape\n            v.dims = v.dims[:i] + dims + v.dims[i + 1:]", "            new_shape = v.shape[:i] + dims_shape[::-1] + v.shape[i + 1:]\n            v.shape = new_shape\n            v.dims = v.dims[:i] + dims[::-1] + v.dims[i + 1:]"),
 ("C08", "bad", DS, "            sortdata.append([values.index(value) for value in self[x]])", "            sortdata.append([value for value in self[x]])"),
 ("C08", "bad", DS, "            newdim = olddim.__class__(olddim, name=newname)\n", "            newdim = DimSweep(olddim, name=newname)\n"),
 ("C08", "ok", DS, "        for v in self.vardata.keys():\n            db[v] = self[v].squeeze()", "        for v, data in self.vardata.items():\n            db[v] = data.squeeze()"),
 ("C08", "ok", DS, "        for k, v in self.vardata.items():\n            out[k] = interpolate(variable, self[k], defaultmode)", "        names = list(self.vardata)\n        for name in names:\n            newdata = interpolate(variable, self[name], defaultmode=defaultmode)\n            out[name] = newdata"),
 ("C08", "ok", DS, "        olddim = self.ivardata[dimname]\n        out.xname = self.xname\n        data = self[dimname][sortorder]\n        out.replace_dim(olddim, olddim.__class__(olddim, data=data))", "        out.xname = self.xname\n        olddim = self.ivardata[dimname]\n        newdim = olddim.__class__(olddim, data=self[dimname][sortorder])\n        out.replace_dim(olddim, newdim)"),
 ("C08", "ok", DS, "            newinfo = list(data.dims)\n            reorder = list(range(data.ndim))\n            del newinfo[i]\n            del reorder[i]\n            reorder = tuple([i] + reorder)\n            newinfo = tuple([newdim] + newinfo)\n", "            newinfo = [newdim] + [d for n, d in enumerate(data.dims) if n != i]\n            newinfo = tuple(newinfo)\n            reorder = (i,) + tuple(n for n in range(data.ndim) if n != i)\n"),
 ("C08", "ok", DS, "            if isinstance(x, olddimclass):\n            ds", "            if isinstance(x, olddimclass):\n            ds") if 0 else ("C08", "ok", DS, "                newname = \"%s_index\" % x\n            else:\n                newname = x\n", "                newname = \"{}_index\".format(x)\n            else:\n                newname = x\n"),
]
M += [
 ("C10", "bad", DS, "            out[k] = interpolate(variable, self[k], defaultmode)", "            out[k] = interpolate(variable, self[k])"),
]
MP = "networks/multiports.py"
SP = "networks/spar_functions.py"
NO = "networks/noise.py"
MA = "math.py"
M += [
 ("C17", "bad", SP, "    denom = (1 - S1[..., 1, 1] * S2[..., 0, 0])", "    denom = (1 - S1[..., 1, 1] * S2[..., 1, 1])"),
 ("C17", "bad", SP, "S2[..., 1, 1] - S1[..., 1, 1] * s2det", "S2[..., 1, 1] - S1[..., 0, 0] * s2det"),
 ("C17", "bad", SP, "        return cascadeS(res, *rest)", "        return cascadeS(*(rest + (res,)))"),
 ("C17", "bad", SP, "        return cascadeS(res, *rest)", "        return cascadeS(res, rest[0])"),
 ("C17", "bad", SP, "    res[..., 1, 1] = res[..., 1, 1] + X[..., 1, 1]", "    res[..., 1, 1] = res[..., 1, 1] - X[..., 1, 1]"),
 ("C17", "bad", SP, "             e[..., 1, 1] * X[..., 0, 0])", "             e[..., 1, 1] * X[..., 1, 1])"),
 ("C17", "bad", SP, "    res[..., 0, 1] = (X[..., 0, 1] * e[..., 1, 0])\n    res[..., 1, 0] = (X[..., 1, 0] * e[..., 0, 1])", "    res[..., 0, 1] = (X[..., 0, 1] * e[..., 0, 1])\n    res[..., 1, 0] = (X[..., 1, 0] * e[..., 1, 0])"),
 ("C17", "bad", SP, "    return deembedright(deembedleft(e1, S), e2)", "    return deembedright(deembedleft(e2, S), e1)"),
 ("C17", "ok", SP, "    return deembedright(deembedleft(e1, S), e2)", "    return deembedleft(e1, deembedright(S, e2))"),
 ("C17", "ok", SP, "    e22 = (-X[..., 0, 1] * X[..., 1, 0] * e[..., 1, 1])\n", "    x12x21 = X[..., 0, 1] * X[..., 1, 0]\n    e22 = -e[..., 1, 1] * x12x21\n"),
 ("C17", "bad", SP, "    Sm = matrix_multiply(b, inv(a))", "    Sm = matrix_multiply(inv(a), b)"),
 ("C17", "bad", SP, "    S[..., 1, 0] = A12\n", "    S[..., 1, 0] = S12\n"),
 ("C17", "bad", MP, "        return hfarray(x, copy=False)[..., i, j]", "        return hfarray(x, copy=False)[..., j, i]"),
 ("C17", "bad", MP, "    B = -sigma1 + matrix_multiply(a, sigma2)", "    B = sigma1 - matrix_multiply(a, sigma2)"),
 ("C17", "bad", MP, "    A = inv(tau1 - matrix_multiply(a, tau2))", "    A = inv(tau1 - matrix_multiply(tau2, a))"),
 ("C17", "bad", MP, "    PB = inv(toP)\n    PA = fromP\n", "    PB = toP\n    PA = inv(fromP)\n"),
 ("C17", "ok", MP, "    PB = inv(toP)\n    PA = fromP\n    P = matrix_multiply(PA, PB)\n", "    P = matrix_multiply(fromP, inv(toP))\n"),
 ("C17", "bad", MP, "                self.Z0 = getattr(data, \"Z0\", None)\n", "                self.Z0 = 50.\n"),
 ("C17", "bad", MP, "        if (isinstance(data, self.__class__) and self.Z0 == data.Z0 and\n                Z0 in (None, data.Z0)):", "        if isinstance(data, self.__class__):"),
 ("C17", "bad", MP, "                res, _, _ = convert(data.P, self.P, view)", "                res, _, _ = convert(self.P, data.P, view)"),
 ("C17", "bad", MP, "        out = self.__class__(data, dims=self.dims)\n        out.Z0 = self.Z0\n        return out", "        out = self.__class__(data, dims=self.dims)\n        return out"),
 ("C17", "bad", MP, "            out = self.__class__(data, copy=False)\n            out.Z0 = self.Z0\n", "            out = self.__class__(data, copy=False)\n"),
 ("C17", "bad", MP, "        a = SArray(self)\n        b = SArray(other)\n", "        a = SArray(other)\n        b = SArray(self)\n"),
 ("C17", "bad", MP, "        return self.__class__(cascadeS(a, b))", "        return cascadeS(a, b)"),
 ("C17", "bad", MP, "            return self.__class__(deembedleft(SArray(left),\n                                              SArray(self)))", "            return self.__class__(deembedright(SArray(self),\n                                              SArray(left)))"),
 ("C17", "bad", MP, "            return self.__class__(deembed(SArray(left),", "            return self.__class__(deembed(left,"),
 ("C17", "bad", MP, "        P = make_matrix(bmat([[v, -i], [v, i]]))", "        P = make_matrix(bmat([[v, i], [v, -i]]))"),
 ("C17", "bad", MP, "                   [0, 0, 0, -1.]])", "                   [0, 0, 0, 1.]])"),
 ("C17", "bad", MP, "                   [0, v2, 0, i2],\n                   [0, v2, 0, -i2]])", "                   [0, v2, 0, -i2],\n                   [0, v2, 0, i2]])"),
 ("C17", "bad", MP, "        v = diag([sqrt(1. / Z0) / 2.] * self.shape[-1])", "        v = diag([1. / sqrt(50.) / 2.] * self.shape[-1])"),
 ("C17", "ok", MP, "        v = diag([sqrt(1. / Z0) / 2.] * self.shape[-1])", "        n = self.shape[-1]\n        v = diag([0.5 / sqrt(Z0)] * n)"),
 ("C17", "bad", MP, "        if isinstance(data, YArray) and data.ismatrix():\n            if data.shape[-1] != data.shape[-2]:\n                raise ValueError(\"%s must be a square matrix\" % self.shortname)\n            data = _hfarray(inv(data))", "        if isinstance(data, YArray) and data.ismatrix():\n            if data.shape[-1] != data.shape[-2]:\n                raise ValueError(\"%s must be a square matrix\" % self.shortname)\n            data = _hfarray(data)"),
 ("C17", "bad", MA, "\"...ij,...jk->...ik\"", "\"...ij,...jk->...ki\""),
 ("C17", "bad", MA, "\"...ij,...jk->...ik\"", "\"...ij,...ik->...jk\""),
 ("C17", "bad", MA, "    x = np.linalg.solve(AA, bb)", "    x = np.linalg.solve(AA.swapaxes(-1, -2), bb)"),
 ("C17", "bad", MA, "    result = hfarray(result, dims=A.dims[:-2])", "    result = hfarray(result, dims=A.dims[2:])"),
 ("C17", "bad", NO, "        C = k * Tamb * (eye - matrix_multiply(twoport, Hconj(twoport)))", "        C = k * Tamb * (eye - matrix_multiply(twoport, twoport))"),
 ("C17", "bad", NO, "        C = k * Tamb * (eye - matrix_multiply(twoport, Hconj(twoport)))", "        C = k * 290 * (eye - matrix_multiply(twoport, Hconj(twoport)))"),
 ("C17", "bad", NO, "    dataset.CAm12 = dataset.CAm21.conj()", "    dataset.CAm12 = dataset.CAm21"),
 ("C17", "bad", NO, "        C = matrix_multiply(matrix_multiply(T_s2d, self.C), Hconj(T_s2d))", "        C = matrix_multiply(matrix_multiply(Hconj(T_s2d), self.C), T_s2d)"),
 ("C17", "bad", NO, "    out2 = out.conj()\n    return out2", "    return out"),
 ("C17", "bad", NO, "        Yopt = np.sqrt(Gn / Rn + Ycor.real ** 2) - 1j * Ycor.imag", "        Yopt = np.sqrt(Gn / Rn + Ycor.real ** 2) + 1j * Ycor.imag"),
 ("C17", "bad", NO, "        Fmin = 1 + 2 * Rn * (Ycor.real + Yopt.real)", "        Fmin = 1 + Rn * (Ycor.real + Yopt.real)"),
 ("C17", "ok", NO, "        Ycor = Y11 - CY12 / CY22 * Y21\n", "        corr = CY12 / CY22\n        Ycor = Y11 - corr * Y21\n"),
 ("C17", "bad", NO, "    order[i_idx], order[j_idx] = order[j_idx], order[i_idx]\n", ""),
]
M += [
 ("C25", "bad", MA, "    return 20 * np.log10(abs(x))", "    return 20 * np.log10(abs(x.real))"),
 ("C25", "bad", MA, "    return 20 * np.log10(abs(x))", "    return 20 * np.log(abs(x))"),
 ("C25", "ok", MA, "    return 20 * np.log10(abs(x))", "    return 10 * np.log10(abs(x) ** 2)"),
 ("C25", "ok", MA, "    return 10**(x / 20.)", "    return np.power(10., 0.05 * x)"),
 ("C25", "bad", MA, "    return 10**(x / 20.)", "    return 10**(x / 10.)"),
 ("C25", "bad", MA, "    return mag * exp(1j * pi * ang / 180.)", "    return mag * exp(1j * ang)"),
 ("C25", "ok", MA, "    return mag * exp(1j * pi * ang / 180.)", "    phi = np.deg2rad(ang)\n    return mag * (np.cos(phi) + 1j * np.sin(phi))"),
 ("C25", "bad", MA, "    return mag * exp(1j * pi * ang / 180.)", "    phi = np.deg2rad(ang)\n    return mag * (np.cos(phi) - 1j * np.sin(phi))"),
 ("C25", "bad", MA, "        B = (b - (-180))\n        b = B / 180. * np.pi", "        B = (b - (-180))\n        b = b / 180. * np.pi"),
 ("C25", "bad", MA, "    res = res + B\n    if isinstance(z, _hfarray)", "    res = res + b\n    if isinstance(z, _hfarray)"),
 ("C25", "ok", MA, "    Z = np.asanyarray(z) / exp(1j * b)", "    Z = np.asanyarray(z) * exp(-1j * b)"),
 ("C25", "bad", MA, "    Z = np.asanyarray(z) / exp(1j * b)", "    Z = np.asanyarray(z) * exp(1j * b)"),
 ("C25", "bad", MA, "    Q = sqrt(abs(q)) * exp(1j * phase / 2)", "    Q = sqrt(abs(q)) * exp(1j * phase)"),
 ("C25", "bad", MA, "    a1 = _unwrap_phase(data, deg=deg)", "    a1 = _unwrap_phase(data)"),
 ("C25", "bad", MA, "    a = angle(data[0])\n", "    a = angle(data[0], branch=0)\n"),
 ("C25", "bad", MA, "        result2 = result2 / pi * 180", "        result2 = result1 / pi * 180"),
 ("C25", "bad", MA, "    f_mean = (freq[:-1] + freq[1:]) / 2", "    f_mean = freq[1:]"),
 ("C25", "bad", MA, "    domega = (2 * pi * (freq[:-1] - freq[1:]))", "    domega = (2 * pi * (freq[1:] - freq[:-1]))"),
 ("C25", "ok", MA, "    domega = (2 * pi * (freq[:-1] - freq[1:]))\n    dfi = angle(var[1:] / var[:-1])", "    domega = 2 * pi * np.diff(freq)\n    dfi = angle(var[:-1] / var[1:])"),
 ("C25", "ok", MA, "    return (d0 * y1 + d1 * y0) / d", "    slope = (y1 - y0) / d\n    return y0 + slope * d0"),
 ("C25", "bad", MA, "    return (d0 * y1 + d1 * y0) / d", "    return (d0 * y0 + d1 * y1) / d"),
 ("C25", "bad", MA, "    elif xi.max() > x.max():\n", "    elif xi.min() > x.max():\n"),
 ("C25", "ok", MA, "    if xi.min() < x.min():\n        raise ValueError(\"Can not interpolate below lowest value\")\n    elif xi.max() > x.max():\n        raise ValueError(\"Can not interpolate below highest value\")\n    else:\n        return linear_extrapolate(x, y, xi)", "    if x.min() <= xi.min() and xi.max() <= x.max():\n        return linear_extrapolate(x, y, xi)\n    raise ValueError(\"Can not interpolate outside of the range\")"),
 ("C25", "bad", MA, "        if abs(x) < threshold:\n            return 0 * x\n        else:\n            return x", "        if x < threshold:\n            return 0 * x\n        else:\n            return x") if 0 else ("C25", "bad", MA, "            return 0 * x\n        else:\n            return x", "            return x\n        else:\n            return 0 * x"),
]
PL = "plotting/helper.py"
SM = "plotting/smith.py"
M += [
 ("C22", "bad", PL, "db10=lambda x, y: (x, 10 * np.log10(abs(y)))", "db10=lambda x, y: (x, 20 * np.log10(abs(y)))"),
 ("C22", "ok", PL, "db10=lambda x, y: (x, 10 * np.log10(abs(y)))", "db10=lambda x, y: (x, hftools.math.dB(y) / 2)"),
 ("C22", "bad", PL, "                rad=lambda x, y: (x, hfarray(np.angle(y, deg=False),", "                rad=lambda x, y: (x, hfarray(np.angle(y, deg=True),"),
 ("C22", "bad", PL, "unwrapdeg=lambda x, y: (x, unwrap_phase(y, deg=True))", "unwrapdeg=lambda x, y: (x, unwrap_phase(y))"),
 ("C22", "bad", PL, "groupdelay=lambda x, y: delay(x, y)", "groupdelay=lambda x, y: delay(y, x)"),
 ("C22", "bad", PL, "    return theta, r\n", "    return r, theta\n"),
 ("C22", "bad", PL, "imag=lambda x, y: (x, hfarray(np.imag(y), dims=y.dims))", "imag=lambda x, y: (x, hfarray(np.abs(y), dims=y.dims))"),
 ("C22", "bad", PL, "                mag_square=lambda x, y: (x, hfarray(np.abs(y) ** 2,", "                mag_square=lambda x, y: (x, hfarray((y ** 2).real,"),
 ("C22", "bad", PL, "matplotlib.projections.register_projection(UnwrapRadAxes)\n", ""),
 ("C22", "bad", PL, "                x, y = _projfun[projection](x, y)\n                lines = self._plot_helper(x, y, *args, **kwargs)", "                y, x = _projfun[projection](x, y)\n                lines = self._plot_helper(x, y, *args, **kwargs)"),
 ("C22", "bad", PL, "                x, y = _projfun[projection](x, y)\n                lines = self._plot_helper(x, y, *args, **kwargs)", "                x, y = _projfun[self.name](x, y)\n                lines = self._plot_helper(x, y, *args, **kwargs)"),
 ("C22", "bad", PL, "                lines = self._plot_helper(y.real, y.imag, *args, **kwargs)", "                lines = self._plot_helper(x, y.imag, *args, **kwargs)"),
 ("C22", "ok", PL, "                x, y = _projfun[projection](x, y)\n                lines = self._plot_helper(x, y, *args, **kwargs)", "                func = _projfun[projection]\n                newx, newy = func(x, y)\n                lines = self._plot_helper(newx, newy, *args, **kwargs)"),
 ("C22", "ok", PL, "_projfun[\"x-si\"] = lambda x, y: (x, y)\n_projfun[None] = lambda x, y: (x, y)", "_projfun.update({\"x-si\": lambda x, y: (x, y), None: lambda a, b: (a, b)})"),
 ("C22", "bad", SM, "    x0, y0 = (-g / (g + 1.), 0)", "    x0, y0 = (g / (g + 1.), 0)"),
 ("C22", "bad", SM, "    x0, y0 = (-1, -1 / b)", "    x0, y0 = (-1, 1 / b)"),
 ("C22", "bad", SM, "        return (1 - y) / (1 + y)", "        return (y - 1) / (1 + y)"),
]
SU = "constants/si_units.py"
M += [
 ("C16", "bad", SU, "p=1e-12, f=1e-15", "p=1e-12, f=1e-14"),
 ("C16", "bad", SU, "-9: \"n\", -12: \"p\", -15: \"f\",\n                            -18", "-9: \"p\", -12: \"n\", -15: \"f\",\n                            -18"),
 ("C16", "bad", SU, "                      18: \"E\", 21: \"Z\", 24: \"Y\",\n                      -3", "                      18: \"E\", 21: \"Z\", 24: \"Z\",\n                      -3"),
 ("C16", "bad", SU, "siunit_names = [\"Hz\", \"s\", \"S\", \"Ohm\", \"m\", \"V\", \"A\", \"F\", \"W\"]", "siunit_names = [\"Hz\", \"s\", \"S\", \"Ohm\", \"m\", \"V\", \"A\", \"F\"]"),
 ("C16", "bad", SU, "        if unit[1:] in siunit_names:\n            return siprefixes[unit[0]], unit[1:]\n        else:\n            return 1, unit", "        return siprefixes[unit[0]], unit[1:]"),
 ("C16", "bad", SU, "            return siprefixes[unit[0]], unit[1:]", "            return siprefixes[unit[0]], unit"),
 ("C16", "bad", SU, "            return .01, None", "            return .1, None"),
 ("C16", "bad", SU, "    return hftools.dataset.hfarray(to_numeric(value, error=True) * mul,", "    return hftools.dataset.hfarray(to_numeric(value, error=True) / mul,"),
 ("C16", "bad", SU, "    return hftools.dataset.hfarray(to_numeric(value, error=True) * mul,", "    return hftools.dataset.hfarray(to_numeric(value, error=True),"),
 ("C16", "ok", SU, "    return hftools.dataset.hfarray(to_numeric(value, error=True) * mul,", "    number = to_numeric(value, error=True)\n    return hftools.dataset.hfarray(mul * number,"),
 ("C16", "bad", SU, "    return (value * 10 ** -(e - mul), e - mul)", "    return (value * 10 ** -(e - mul), e)"),
 ("C16", "bad", SU, "    if (e >= 0 and e < 3):", "    if (e >= 0 and e < 4):"),
 ("C16", "bad", SU, "    return (value * 10 ** -(e - mul), e - mul)", "    return (value * 10 ** (e - mul), e - mul)"),
 ("C16", "ok", SU, "    if (e >= 0 and e < 3):\n        return m * 10 ** mul, 0\n    return (value * 10 ** -(e - mul), e - mul)", "    exp = e - e % 3\n    return (value * 10 ** -exp, exp)"),
 ("C16", "ok", SU, "    if (e >= 0 and e < 3):", "    if 0 <= e < 3:"),
 ("C16", "bad", SU, "    mantissavalue = x / (10 ** exponent)", "    mantissavalue = np.sign(x) * x / (10 ** exponent)"),
 ("C16", "bad", SU, "        if greek:\n            prefix = si_exp_to_prefixes_greek[exp]\n        else:\n            prefix = si_exp_to_prefixes[exp]", "        if greek:\n            prefix = si_exp_to_prefixes[exp]\n        else:\n            prefix = si_exp_to_prefixes_greek[exp]"),
 ("C16", "ok", SU, "        if greek:\n            prefix = si_exp_to_prefixes_greek[exp]\n        else:\n            prefix = si_exp_to_prefixes[exp]", "        table = si_exp_to_prefixes_greek if greek else si_exp_to_prefixes\n        prefix = table[exp]"),
 ("C16", "bad", SU, "        if number > 0:\n            num = \"inf\"", "        if number < 0:\n            num = \"inf\""),
 ("C16", "bad", SU, "([eE][-+]?[0-9]+)?", "([eE][-+]?[0-9][0-9]?)?"),
 ("C16", "bad", SU, "            unit = unit_res.group(1)", "            unit = unit_res.group()"),
 ("C16", "bad", PL, "            return FormatStrFormatter.__call__(self, x / div, pos)", "            return FormatStrFormatter.__call__(self, x * div, pos)"),
 ("C16", "bad", PL, "                prefix = si_exp_to_prefixes.get(exponent, \"q\")", "                prefix = si_exp_to_prefixes.get(exponent - 3, \"q\")"),
 ("C16", "bad", "file_formats/readbase.py", "        mul, unit = unit_to_multiplier(unit)", "        _, unit = unit_to_multiplier(unit)\n        mul = 1"),
]
FI = "file_formats/__init__.py"
RB = "file_formats/readbase.py"
TS = "file_formats/touchstone.py"
CI = "file_formats/citi.py"
MD = "file_formats/mdif.py"
SD = "file_formats/spdata.py"
H2 = "file_formats/hdf5/v_02.py"
H1 = "file_formats/hdf5/v_01.py"
HH = "file_formats/hdf5/helper.py"
H0 = "file_formats/hdf5/hdf5.py"
CO = "file_formats/common.py"
M += [
 ("C11", "bad", MD, "            with open(fname) as fil:\n                res = obj.do_file(fil)\n", "            fil = open(fname)\n            res = obj.do_file(fil)\n            fil.close()\n            if True:\n"),
 ("C11", "ok", MD, "            with open(fname) as fil:\n                res = obj.do_file(fil)\n", "            fil = open(fname)\n            try:\n                res = obj.do_file(fil)\n            finally:\n                fil.close()\n            if True:\n"),
 ("C11", "bad", MD, "            with open(fname) as fil:\n                res = obj.do_file(fil)\n", "            res = obj.do_file(open(fname))\n            if True:\n"),
 ("C11", "bad", HH, "        yield filehandle\n    else:\n        with h5py.File(filehandle, mode=mode) as fil:\n            yield fil", "        yield filehandle\n    else:\n        fil = h5py.File(filehandle, mode=mode)\n        yield fil\n        fil.close()"),
 ("C11", "ok", HH, "        yield filehandle\n    else:\n        with h5py.File(filehandle, mode=mode) as fil:\n            yield fil", "        yield filehandle\n        return\n    fil = h5py.File(filehandle, mode=mode)\n    try:\n        yield fil\n    finally:\n        fil.close()"),
 ("C11", "bad", HH, "    if isinstance(filehandle, h5py.File):\n        yield filehandle\n", "    if isinstance(filehandle, h5py.File):\n        with filehandle:\n            yield filehandle\n"),
 ("C11", "bad", HH, "mode=\"r\"", "mode=\"a\""),
 ("C11", "bad", HH, "with h5py.File(filehandle, mode=mode) as fil:", "with h5py.File(filehandle) as fil:") if 0 else ("C11", "bad", H0, "        with hdf5context(h5file) as fil:\n            version", "        with hdf5context(h5file, \"r+\") as fil:\n            version"),
 ("C11", "bad", H0, "mode=\"w\"", "mode=\"a\""),
 ("C11", "bad", CI, "    with codecs.open(filename, \"w\", encoding=\"cp1252\") as fil:\n        for rad in format_citi_block(db):\n            fil.write(rad)\n            fil.write(\"\\n\")", "    fil = codecs.open(filename, \"w\", encoding=\"cp1252\")\n    for rad in format_citi_block(db):\n        fil.write(rad)\n        fil.write(\"\\n\")\n    fil.close()"),
 ("C11", "bad", "file_formats/config.py", "        with io.open(filename, \"w\", encoding=\"utf-8\") as stream:", "        with io.open(filename, \"a\", encoding=\"utf-8\") as stream:") if 0 else ("C11", "bad", RB, "            with io.open(fname, encoding=encoding) as fil:", "            fil = io.open(fname, encoding=encoding)\n            if True:"),
 ("C11", "ok", RB, "            with io.open(fname, encoding=encoding) as fil:\n                res = obj.do_file(fil)\n", "            with io.open(fname, encoding=encoding) as fil:\n                res = obj.do_file(fil)\n            if True:\n"),
]
M += [
 ("C12", "bad", H2, "        if v.unit:\n            filehandle[ek].attrs[\"unit\"] = v.unit\n        if v.outputformat:\n            filehandle[ek].attrs[\"outputformat\"] = v.outputformat\n\n    if exp", "        if v.unit:\n            filehandle[ek].attrs[\"Unit\"] = v.unit\n        if v.outputformat:\n            filehandle[ek].attrs[\"outputformat\"] = v.outputformat\n\n    if exp"),
 ("C12", "bad", H2, "                  unit=x.attrs.get(\"unit\", None),\n                  outputformat=x.attrs.get(\"outputformat\", None))", "                  unit=x.attrs.get(\"unit\", None))"),
 ("C12", "bad", H2, "                  unit=x.attrs.get(\"unit\", None),", "                  unit=x.attrs.get(\"outputformat\", None),"),
 ("C12", "bad", H2, "return x.replace(\"\\\\\", \"/\")", "return x.replace(\"/\", \"\\\\\")"),
 ("C12", "bad", H2, "    return dimcls(unescape_varname(x.name.strip(\"/\")),", "    return dimcls(x.name.strip(\"/\"),"),
 ("C12", "bad", H2, "            data = data.astype(np.uint64)\n        elif np.issubdtype(data.dtype, np.unicode_):\n            data = data.astype(h5py_string_dtype)\n    else:", "            data = data.astype(np.uint32)\n        elif np.issubdtype(data.dtype, np.unicode_):\n            data = data.astype(h5py_string_dtype)\n    else:"),
 ("C12", "bad", H2, "        create_dataset(filehandle, ek, v.data)", "        create_dataset(filehandle, ek, v.data.astype(np.float32))"),
 ("C12", "bad", H2, "    db.create_dataset(key, data=data, maxshape=maxshape)", "    db.create_dataset(key, data=data, maxshape=maxshape, dtype=\"f4\")"),
 ("C12", "bad", H2, "    db.create_dataset(key, data=data, maxshape=maxshape)", "    db.create_dataset(key, data=data, maxshape=maxshape, scaleoffset=3)"),
 ("C12", "bad", H2, "            maxshape[1] = None", "            maxshape[0] = None"),
 ("C12", "bad", H2, "    for x in X.dims:\n", "    for x in reversed(X.dims):\n"),
 ("C12", "bad", H2, "            dims.append(getdim(x[0]))", "            dims.insert(0, getdim(x[0]))"),
 ("C12", "bad", H2, "dims[idx].attach_scale", "dims[v.ndim - 1 - idx].attach_scale"),
 ("C12", "bad", H2, "        if v.unit:\n            filehandle[ek].attrs[\"unit\"] = v.unit\n        if v.outputformat:\n            filehandle[ek].attrs[\"outputformat\"] = v.outputformat\n\n\ndef", "        if v.unit and v.ndim:\n            filehandle[ek].attrs[\"unit\"] = v.unit\n        if v.outputformat:\n            filehandle[ek].attrs[\"outputformat\"] = v.outputformat\n\n\ndef"),
 ("C12", "bad", H2, "    return dimcls(unescape_varname(x.name.strip(\"/\")),\n                  np.array(x[...],", "    return dimcls(unescape_varname(x.name.strip(\"/\")),\n                  np.array(x[...].real,"),
 ("C12", "bad", H2, "          \"DimMatrix_i\": DimMatrix_i,\n          \"DimMatrix_j\": DimMatrix_j,", "          \"DimMatrix_i\": DimMatrix_j,\n          \"DimMatrix_j\": DimMatrix_i,"),
 ("C12", "bad", H2, "          \"DimPartial\": DimPartial,\n", ""),
 ("C12", "bad", H2, "    db[key].attrs[\"dtype\"] = data_dtype.str", "    db[key].attrs[\"dtype\"] = data_dtype.kind"),
 ("C12", "bad", H2, "    db[key].attrs[\"dtype\"] = data_dtype.str", "    pass"),
 ("C12", "bad", H2, "            if \"dimtype\" not in filehandle[k].attrs:", "            if \"unit\" not in filehandle[k].attrs:"),
 ("C12", "bad", H0, "            if version == \"0.2\":\n                return", "            if version == \"0.20\":\n                return"),
 ("C12", "bad", H0, "fil.attrs.get(\"hftools file version\", \"\")", "fil.attrs.get(\"hftools version\", \"\")"),
 ("C12", "bad", H0, "            func = v_02.save_hdf5\n        else:\n            func = v_01.save_hdf5", "            func = v_01.save_hdf5\n        else:\n            func = v_02.save_hdf5"),
 ("C12", "ok", H0, "        if version == \"0.2\":\n            func = v_02.save_hdf5\n        else:\n            func = v_01.save_hdf5\n", "        func = v_02.save_hdf5 if version == latest_version else v_01.save_hdf5\n"),
 ("C12", "bad", H1, "dset.attrs[r\"data\\unit\"] = ", "dset.attrs[r\"info\\unit\"] = "),
 ("C12", "bad", H1, "        dset.attrs[r\"info\\class\"] = klass", "        dset.attrs[r\"info\\class\"] = name"),
 ("C12", "bad", H1, "        unit = cast_unicode(v.attrs.get(r\"info\\unit\", \"none\"))", "        unit = str(v.attrs.get(r\"info\\unit\", \"none\"))"),
 ("C12", "bad", H1, "grp.attrs[\"Blockname\"] = blockname", "grp.attrs[\"blockname\"] = blockname"),
 ("C12", "bad", H1, "        dim = dimcls(k, vdata, unit=unit)", "        dim = dimcls(k, vdata)"),
 ("C12", "bad", H1, "db[k] = hfarray(np.array(v), dtype=datadtype, dims=dims, unit=unit)", "db[k] = hfarray(np.array(v), dtype=datadtype, dims=dims[::-1], unit=unit)"),
 ("C12", "ok", H2, "    unit = X.attrs.get(\"unit\", None)\n    outputformat = X.attrs.get(\"outputformat\", None)\n    dtype = X.attrs.get(\"dtype\", None)\n", "    attrs = X.attrs\n    unit = attrs[\"unit\"] if \"unit\" in attrs else None\n    outputformat = attrs.get(\"outputformat\")\n    dtype = attrs.get(\"dtype\", None)\n"),
 ("C12", "ok", H2, "    for x in X.dims:\n        if len(x):\n            dims.append(getdim(x[0]))\n", "    dims.extend(getdim(x[0]) for x in X.dims if len(x))\n"),
 ("C12", "ok", H2, "    if data.ndim:\n        if np.issubdtype(data.dtype, np.datetime64):\n            data = data.astype(np.uint64)\n        elif np.issubdtype(data.dtype, np.unicode_):\n            data = data.astype(h5py_string_dtype)\n    else:\n        if", "    if True:\n        if"),
 ("C12", "ok", H2, "        if v.unit:\n            filehandle[ek].attrs[\"unit\"] = v.unit\n        if v.outputformat:\n            filehandle[ek].attrs[\"outputformat\"] = v.outputformat\n\n\ndef", "        attrs = filehandle[ek].attrs\n        if v.unit is not None:\n            attrs[\"unit\"] = v.unit\n        for _ in (1,):\n            if v.outputformat:\n                attrs[\"outputformat\"] = v.outputformat\n\n\ndef"),
 ("C12", "ok", H2, "        if v.unit:\n            filehandle[ek].attrs[\"unit\"] = v.unit\n        if v.outputformat:\n            filehandle[ek].attrs[\"outputformat\"] = v.outputformat\n\n\ndef save", "        store_meta(filehandle[ek], v)\n\n\ndef store_meta(dset, v):\n    if v.unit:\n        dset.attrs[\"unit\"] = v.unit\n    if v.outputformat:\n        dset.attrs[\"outputformat\"] = v.outputformat\n\n\ndef save"),
 ("C12", "ok", H2, "    for k, v in db.ivardata.items():\n        ek = escape_varname(k)\n", "    for k in db.ivardata:\n        v = db.ivardata[k]\n        ek = escape_varname(k)\n"),
 ("C12", "ok", H2, "        for idx, dv in enumerate(v.dims):\n            ed = escape_varname(dv.name)\n            filehandle[ek].dims.create_scale(filehandle[ed])\n            filehandle[ek].dims[idx].attach_scale(filehandle[ed])\n", "        dset = filehandle[ek]\n        idx = 0\n        for dv in v.dims:\n            scale = filehandle[escape_varname(dv.name)]\n            dset.dims.create_scale(scale)\n            dset.dims[idx].attach_scale(scale)\n            idx += 1\n"),
 ("C12", "ok", H2, "        for k in filehandle:\n            uk = unescape_varname(k)\n            if \"dimtype\" not in filehandle[k].attrs:\n                db[uk] = getvar(filehandle, k)\n", "        for k in filehandle:\n            if \"dimtype\" in filehandle[k].attrs:\n                continue\n            db[unescape_varname(k)] = getvar(filehandle, k)\n"),
 ("C12", "ok", H1, "        unit = cast_unicode(v.attrs.get(r\"data\\unit\", \"none\"))\n        if unit.lower() == \"none\":\n            unit = None\n        db[k]", "        unit = cast_unicode(v.attrs.get(r\"data\\unit\", \"none\"))\n        unit = None if unit.lower() == \"none\" else unit\n        db[k]"),
]
M += [
 ("C13", "bad", H2, "    for k in filehandle:\n        uk = unescape_varname(k)\n        if uk in db.ivardata or uk == expanddim.name:\n            continue\n        if uk not in db.vardata:\n            raise ValueError(\"Variable %r missing in db, can not append\" % uk)\n    idx = filehandle[expanddim.name][-1] + 1\n    expand_dataset(filehandle[expanddim.name], 1, 0)\n    filehandle[expanddim.name][-1] = idx\n", "    idx = filehandle[expanddim.name][-1] + 1\n    expand_dataset(filehandle[expanddim.name], 1, 0)\n    filehandle[expanddim.name][-1] = idx\n    for k in filehandle:\n        uk = unescape_varname(k)\n        if uk in db.ivardata or uk == expanddim.name:\n            continue\n        if uk not in db.vardata:\n            raise ValueError(\"Variable %r missing in db, can not append\" % uk)\n"),
 ("C13", "bad", H2, "    idx = filehandle[expanddim.name][-1] + 1\n    expand_dataset(filehandle[expanddim.name], 1, 0)\n", "    expand_dataset(filehandle[expanddim.name], 1, 0)\n    idx = filehandle[expanddim.name][-1] + 1\n"),
 ("C13", "bad", H2, "    idx = filehandle[expanddim.name][-1] + 1\n", "    idx = filehandle[expanddim.name][0] + 1\n"),
 ("C13", "bad", H2, "        ax = diskdata.maxshape.index(None)\n", "        ax = min(1, diskdata.ndim - 1)\n") if 0 else ("C13", "bad", H2, "        ax = diskdata.maxshape.index(None)\n", "        ax = 1\n"),
 ("C13", "bad", H2, "        s = (slice(None),) * ax + (diskdata.shape[ax] - 1,)", "        s = (slice(None),) * ax + (0,)"),
 ("C13", "bad", H2, "        diskdata[s] = cast_arrays_to_hdf5(db[uk])", "        diskdata[s] = db[uk]"),
 ("C13", "bad", H2, "        diskdata[s] = cast_arrays_to_hdf5(db[uk])", "        diskdata[s] = cast_arrays_to_hdf5(db[uk].real)"),
 ("C13", "bad", H2, "        if uk in db.ivardata or uk == expanddim.name:\n            continue\n        diskdata", "        if uk in db.ivardata or uk == expanddim.name or v.ndim == 1:\n            continue\n        diskdata"),
 ("C13", "bad", H2, "filehandle.attrs[key] != \"0.2\"", "filehandle.attrs[key] != \"0.1\""),
 ("C13", "bad", H2, "        if uk not in db.vardata:\n            raise ValueError(\"Variable %r missing in db, can not append\" % uk)\n", "        if uk not in db.vardata:\n            continue\n"),
 ("C13", "bad", H2, "    dataset.resize(dataset.shape[axis] + expansion, axis=axis)", "    dataset.resize(dataset.shape[0] + expansion, axis=axis)"),
 ("C13", "ok", H2, "    for k, v in filehandle.items():\n        uk = unescape_varname(k)\n        if uk in db.ivardata or uk == expanddim.name:\n            continue\n        diskdata = filehandle[k]\n", "    for k in filehandle:\n        uk = unescape_varname(k)\n        if uk == expanddim.name or uk in db.ivardata:\n            continue\n        diskdata = filehandle[k]\n"),
 ("C13", "ok", H2, "    idx = filehandle[expanddim.name][-1] + 1\n    expand_dataset(filehandle[expanddim.name], 1, 0)\n    filehandle[expanddim.name][-1] = idx\n", "    index = filehandle[expanddim.name]\n    new = 1 + index[-1]\n    expand_dataset(index, 1, 0)\n    index[-1] = new\n"),
 ("C13", "ok", H2, "        ax = diskdata.maxshape.index(None)\n        expand_dataset(diskdata, 1, ax)\n        s = (slice(None),) * ax + (diskdata.shape[ax] - 1,)\n        diskdata[s] = cast_arrays_to_hdf5(db[uk])", "        append_slab(diskdata, cast_arrays_to_hdf5(db[uk]))\n\n\ndef append_slab(diskdata, values):\n    ax = diskdata.maxshape.index(None)\n    expand_dataset(diskdata, 1, ax)\n    s = (slice(None),) * ax + (-1,)\n    diskdata[s] = values"),
 ("C13", "ok", H2, "        ax = diskdata.maxshape.index(None)\n        expand_dataset(diskdata, 1, ax)\n", "        ax = list(diskdata.maxshape).index(None)\n        diskdata.resize(diskdata.shape[ax] + 1, ax)\n"),
]

FC = "file_formats/common.py"
# -- C14 ---------------------------------------------------------------------
M += [
    ("C14", "bad", TS, "GHZ=1e9", "GHZ=1e6"),
    ("C14", "bad", TS, "THZ=1e12, ", ""),
    ("C14", "bad", TS, "fn = fn * freqmultdict[freq_mult]", "pass"),
    ("C14", "bad", TS, "fn = fn * freqmultdict[freq_mult]", "fn = fn * freqmultdict[freq_mult.strip()] * 1e-9"),
    ("C14", "bad", TS, "data[:, ::2],  data[:, 1::2]", "data[:, 1::2],  data[:, ::2]"),
    ("C14", "bad", TS, "out = out.transpose(0, 2, 1)", "pass"),
    ("C14", "bad", TS, "        out.shape = (out.shape[0], N, N)", "        out.shape = (out.shape[0], N, N)\n        out = out.transpose(0, 2, 1)"),
    ("C14", "bad", TS, "MA=mag_angle_to_complex", "MA=dB_angle_to_complex"),
    ("C14", "bad", TS, "hfarray(noisedata[..., -1], dims=noisedims) * z0", "hfarray(noisedata[..., -1], dims=noisedims) * 50"),
    ("C14", "bad", TS, "(hfarray(noisedata[..., 0], dims=noisedims) / 10)", "(hfarray(noisedata[..., 0], dims=noisedims) / 20)"),
    ("C14", "bad", TS, "convfunc[datatype](noisedata[:, 1], noisedata[:, 2])", "convfunc[datatype](noisedata[:, 2], noisedata[:, 1])"),
    ("C14", "bad", TS, "rad[0] <= output[-1][0]", "rad[0] < output[-1][0]"),
    ("C14", "bad", TS, "if N == 9:", "if N == 19:"),
    ("C14", "bad", TS, "- 1) / 2.)) + 1", "- 1) / 2.))"),
    ("C14", "bad", TS, "_process_data(data[idx:], 5)", "_process_data(data[idx:], 4)"),
    ("C14", "bad", TS, "#HZ S RI R %.16g\\n\" % z0", "#GHZ S RI R %.16g\\n\" % z0"),
    ("C14", "bad", TS, "R %.16g\\n\" % z0", "R %.0f\\n\" % z0"),
    ("C14", "bad", TS, "R %.16g\\n\" % z0", "R 50\\n\""),
    ("C14", "bad", TS, "fortranorder=twoport", "fortranorder=True"),
    ("C14", "bad", TS, "fortranorder=twoport", "fortranorder=not twoport"),
    ("C14", "bad", FC, "(colname, I + 1, J + 1)", "(colname, J + 1, I + 1)"),
    ("C14", "bad", FC, "(colname, I + 1, J + 1)", "(colname, i + 1, j + 1)"),
    ("C14", "bad", FC, "col[..., I, J]", "col[..., J, I]"),
    ("C14", "bad", FC, "[fmt % elem.real, fmt % elem.imag]", "[fmt % elem.imag, fmt % elem.real]"),
    ("C14", "bad", CI, "float(r) + float(i) * 1j", "float(r) - float(i) * 1j"),
    ("C14", "bad", CI, "np.exp(float(i) / 180 * pi * 1j)", "np.exp(float(i) * pi * 1j)"),
    ("C14", "bad", CI, "fmt % (rad.real, rad.imag)", "fmt % (rad.imag, rad.real)"),
    ("C14", "bad", CI, "values.append(value[..., i, j])", "values.append(value[..., j, i])"),
    ("C14", "bad", CI, '"%s%s%s" % (name, i + 1, j + 1)', '"%s%s%s" % (name, i + 1, j)'),
    ("C14", "bad", CI, "        if is_numlike(value.data) and not isinstance(value, _DimMatrix):\n            yield \"VAR_LIST_BEGIN\"", "        if is_numlike(value.data):\n            yield \"VAR_LIST_BEGIN\""),
    ("C14", "bad", CI, 'yield "DATA %s MAG" % (n)', 'yield "DATA %s RI" % (n)'),
    ("C14", "bad", MD, "d = dr + 1j * di", "d = di + 1j * dr"),
    ("C14", "bad", MD, '"integer": self.get_integer', '"integer": self.get_real'),
    ("C14", "bad", MD, "            a.sort()\n            arrays = []", "            arrays = []"),
    ("C14", "bad", RB, "dataset[alt[\"Im\"][-1]] * 1j", "dataset[alt[\"Im\"][-1]] * -1j"),
    ("C14", "bad", RB, "np.exp(np.pi / 180 * 1j *", "np.exp(np.pi / 360 * 1j *"),
    ("C14", "bad", RB, "sorted(elem_tuples)", "elem_tuples"),
    ("C14", "bad", RB, "append((i, j, elemname))", "append((j, i, elemname))"),
    ("C14", "bad", RB, "x.shape = shape + (len(i_indices), len(j_indices),)", "x.shape = shape + (len(j_indices), len(i_indices),)"),
    ("C14", "bad", SD, '"%s", "Re(%s)", "Im(%s)"', '"%s", "Im(%s)", "Re(%s)"'),
    ("C14", "bad", AO, 'subarr.outputformat = "%.16e"', 'subarr.outputformat = "%.6e"'),
    ("C14", "ok", TS, "out = out.transpose(0, 2, 1)", "out = out.swapaxes(1, 2)"),
    ("C14", "ok", TS, "out = out.transpose(0, 2, 1)", "out = np.swapaxes(out, 1, 2)"),
    ("C14", "ok", TS, "f = f * freqmultdict[freq_mult]", "scale = freqmultdict[freq_mult]\n    f = scale * f"),
    ("C14", "ok", TS, "rad[0] <= output[-1][0]", "not rad[0] > output[-1][0]"),
    ("C14", "ok", TS, "(hfarray(noisedata[..., 0], dims=noisedims) / 10)", "(0.1 * hfarray(noisedata[..., 0], dims=noisedims))"),
    ("C14", "ok", TS, "noisedata[..., -1]", "noisedata[:, 3]"),
    ("C14", "ok", CI, "float(r) + float(i) * 1j", "complex(float(r), float(i))"),
    ("C14", "ok", CI, "np.exp(float(i) / 180 * pi * 1j)", "np.exp(1j * pi * float(i) / 180)"),
    ("C14", "ok", CI, "np.exp(float(i) / 180 * pi * 1j)", "np.exp(1j * np.deg2rad(float(i)))"),
    ("C14", "ok", FC, "[fmt % elem.real, fmt % elem.imag]", "[fmt % np.real(elem), fmt % np.imag(elem)]"),
    ("C14", "ok", MD, "d = dr + 1j * di", "d = complex(dr, di)"),
    ("C14", "ok", RB, "dataset[alt[\"Im\"][-1]] * 1j", "1j * dataset[alt[\"Im\"][-1]]"),
]

M += [
    ("C14", "bad", TS, "                out.append(fmt % elem.real)\n                out.append(fmt % elem.imag)\n            fil", "                out.append(fmt % elem.real)\n                if iscomplexobj(elem):\n                    out.append(fmt % elem.imag)\n            fil"),
    ("C14", "bad", TS, "                out.append(fmt % elem.real)\n                out.append(fmt % elem.imag)\n            fil", "                out.append(fmt % elem.imag)\n                out.append(fmt % elem.real)\n            fil"),
    ("C14", "ok", TS, "                out.append(fmt % elem.real)\n                out.append(fmt % elem.imag)\n            fil", "                out.extend([fmt % elem.real, fmt % elem.imag])\n            fil"),
]

# -- C15 ---------------------------------------------------------------------
M += [
    ("C15", "bad", TS, '                    raise TouchstoneError(msg)\n            else:\n                yield Token("Data"', '                    continue\n            else:\n                yield Token("Data"'),
    ("C15", "bad", TS, "                if is_touchstone(None, rad):\n                    yield Token(\"Info\", lineno, rad[1:].strip())\n                else:\n                    msg = \"# format is invalid on line: %s\" % lineno\n                    raise TouchstoneError(msg)", "                yield Token(\"Info\", lineno, rad[1:].strip())"),
    ("C15", "bad", TS, '                    msg = "Second # info at lineno: %d" % lineno\n                    raise TouchstoneError(msg)', '                    pass'),
    ("C15", "bad", TS, '                if info is None:\n                    info = rad\n                else:\n                    msg = "Second # info at lineno: %d" % lineno\n                    raise TouchstoneError(msg)', '                info = rad'),
    ("C15", "bad", TS, "    if current_row:\n        return None, None\n    return output, noise", "    return output, noise"),
    ("C15", "bad", TS, "        if len(current_row) > N:\n            return None, None\n        elif len(current_row) == N:", "        if len(current_row) >= N:"),
    ("C15", "bad", TS, "        if len(current_row) > N:\n            return None, None\n        elif len(current_row) == N:\n            output.append(current_row)", "        if len(current_row) >= N:\n            output.append(current_row[:N])"),
    ("C15", "bad", TS, '    raise TouchstoneError("File is not a valid Touchstone File")', '    return [row for row in data if len(row) == len(data[0])], []'),
    ("C15", "bad", TS, '        msg = ("# format should only have 5 values this one has %d" %\n               len(info_list))\n        raise TouchstoneError(msg)', '        freq_mult, twoporttype, datatype = info = info_list[:3]\n        z0 = 50.'),
    ("C15", "bad", TS, "    f = f * freqmultdict[freq_mult]\n", "    f = f * freqmultdict.get(freq_mult, 1)\n"),
    ("C15", "bad", TS, "    if datatype not in convfunc:\n        pars = datatype\n        msg = \"Unknown dataformat: %s, valid formats: RI, DB, MAG\" % pars\n        raise TouchstoneError(msg)\n", "    conv = convfunc.get(datatype, re_im_to_complex)\n"),
    ("C15", "ok", TS, "    if datatype not in convfunc:\n        pars = datatype\n        msg = \"Unknown dataformat: %s, valid formats: RI, DB, MAG\" % pars\n        raise TouchstoneError(msg)\n", ""),
    ("C15", "ok", TS, "    if current_row:\n        return None, None\n    return output, noise", "    if not current_row:\n        return output, noise\n    return None, None"),
    ("C15", "ok", TS, "    if current_row:\n        return None, None\n    return output, noise", "    if len(current_row) != 0:\n        return None, None\n    return output, noise"),
    ("C15", "ok", TS, "                if info is None:\n                    info = rad\n                else:\n                    msg = \"Second # info at lineno: %d\" % lineno\n                    raise TouchstoneError(msg)", "                if info is not None:\n                    raise TouchstoneError(\"Second # info at %d\" % lineno)\n                info = rad"),
    ("C15", "ok", TS, "                datalist.append(list(map(float, rad.split())))", "                try:\n                    datalist.append(list(map(float, rad.split())))\n                except ValueError:\n                    raise TouchstoneError('bad number on %d' % lineno)"),
    ("C15", "bad", TS, "                datalist.append(list(map(float, rad.split())))", "                try:\n                    datalist.append(list(map(float, rad.split())))\n                except ValueError:\n                    continue"),
    ("C15", "bad", CI, '                raise CITIFileError("Unknown linetype %r" % rad)', '                continue'),
    ("C15", "bad", CI, '                raise CITIFileError("Unknown linetype %r" % rad)', '                if self.verbose:\n                    print("Unknown linetype %r" % rad)'),
    ("C15", "bad", CI, '            else:\n                raise CITIFileError("Unknown linetype %r" % rad)', '            else:\n                yield Token("COMMENT", lineno, rad)'),
    ("C15", "bad", CI, '        raise CITIFileError("Unknown Vartype %r" % (typ,))', '        return [float(elem.split(",")[0]) for elem in data]'),
    ("C15", "bad", CI, '                One("VAR_LIST_END", "Missing VAR_LIST_END")(stream)', '                Optional("VAR_LIST_END")(stream)'),
    ("C15", "bad", CI, '            One("DATA_LIST_END", "Missing END")(stream)', '            Optional("DATA_LIST_END")(stream)'),
    ("C15", "bad", CI, '            One("DATA_LIST_BEGIN", "Missing BEGIN")(stream)', '            ManyOptional("DATA_LIST_BEGIN")(stream)'),
    ("C15", "bad", CI, '                One("SEG_LIST_END", "Missing SEG_LIST_END")(stream)', '                pass'),
    ("C15", "bad", CI, "            datalist.shape = shape", "            datalist = np.resize(datalist, shape)"),
    ("C15", "ok", CI, "            datalist.shape = shape", "            datalist = datalist.reshape(shape)"),
    ("C15", "ok", CI, '                One("VAR_LIST_END", "Missing VAR_LIST_END")(stream)', '                OneOf(["VAR_LIST_END"], "No VAR_LIST_END")(stream)'),
    ("C15", "bad", RB, "            raise Exception(error)\n", "            stream.push(current_token)\n"),
    ("C15", "ok", RB, "            raise Exception(error)\n", "            raise ParseError(error)\n"),
    ("C15", "ok", RB, "        if current_token.tag in names:\n            tokens.append(func(current_token.rad))\n        else:\n            raise Exception(error)\n        return tokens", "        if current_token.tag not in names:\n            raise Exception(error)\n        tokens.append(func(current_token.rad))\n        return tokens"),
    ("C15", "bad", RB, "            raise ParseError(msg)\n", "            return DataBlock()\n"),
    ("C15", "bad", RB, '            raise IOError("Pattern %r did not match any files" % filename)', '            return DataBlock()'),
    ("C15", "bad", RB, "                res = obj.do_file(fil)\n", "                try:\n                    res = obj.do_file(fil)\n                except ParseError:\n                    continue\n"),
    ("C15", "bad", RB, "                res = obj.do_file(fil)\n", "                try:\n                    res = obj.do_file(fil)\n                except Exception as e:\n                    print(e)\n                    continue\n"),
    ("C15", "ok", RB, "                res = obj.do_file(fil)\n", "                try:\n                    res = obj.do_file(fil)\n                except Exception as e:\n                    print(e)\n                    raise\n"),
    ("C15", "bad", RB, "io.open(fname, encoding=encoding)", 'io.open(fname, encoding=encoding, errors="ignore")'),
    ("C15", "bad", SD, '                raise SPDataIOError("Missing header")', '                header.append("X")'),
    ("C15", "bad", SD, '                    raise SPDataIOError("File can not end in comments")', '                    return'),
    ("C15", "bad", SD, "            if any(Nhead != len(row) for row in data):", "            if data and Nhead != len(data[0]):"),
    ("C15", "ok", SD, "            if any(Nhead != len(row) for row in data):", "            if not all(Nhead == len(row) for row in data):"),
    ("C15", "ok", SD, "            if any(Nhead != len(row) for row in data):\n                msg = \"Different number of header variables \"\\\n                      \"from data columns\"\n                raise SPDataIOError(msg)", "            for row in data:\n                if len(row) != Nhead:\n                    raise SPDataIOError('columns')"),
    ("C15", "bad", SD, "            if any(Nhead != len(row) for row in data):\n                msg = \"Different number of header variables \"\\\n                      \"from data columns\"\n                raise SPDataIOError(msg)", "            pass"),
    ("C15", "bad", MD, '                One("END", "Must have END after DATA")(stream)', '                ManyOptional("END")(stream)'),
    ("C15", "bad", MD, '                raise MDIFError("Unexpected end of file")', '                return'),
    ("C15", "bad", MD, '            raise Exception("Unknown datatype in header %r" % head)', '            var, typefunc = head, self.get_real'),
    ("C15", "bad", MD, '            raise Exception("%r not an implemented var type" % vartype)\n        return varname', '            pass\n        return varname'),
    ("C15", "bad", MD, '            raise Exception("%r not an implemented var type" % vartype)\n        i = ', '            value = 0.\n        i = '),
    ("C15", "bad", MD, '                raise MDIFError(msg)\n        else:', '                return None\n        else:'),
    ("C15", "bad", MD, '                if linedata:\n                    msg = "More values than variables in header: %r"\n                    raise MDIFError(msg % (linedata,))\n', ''),
    ("C15", "ok", MD, '            if blockname in res:\n                return res[blockname]\n            else:\n                msg = "%r not a block in mdif file %r" % (blockname, filename)\n                raise MDIFError(msg)', '            if blockname not in res:\n                raise MDIFError("no block %r" % blockname)\n            return res[blockname]'),
    ("C15", "bad", MD, '        if not filenames:\n            raise IOError("Pattern %r did not match any files" % filename)\n', ''),
]

# -- C23 ---------------------------------------------------------------------
M += [
    ("C23", "bad", AO, '        msg = "Can not find AxisObject with name:%r and cls:%s" % (name, cls)\n        raise IndexError(msg)', '        return -1'),
    ("C23", "bad", AO, "                if x.name == dim.name and isinstance(x, dim.__class__):\n                    return x\n        raise KeyError(\"No dim matching %r\" % dim)", "                if x.name == dim.name and isinstance(x, dim.__class__):\n                    return x\n        return dim"),
    ("C23", "ok", AO, "        for idx, ax in enumerate(self.dims):\n            if ax.name == name:\n                if cls is None:\n                    return idx\n                elif isinstance(ax, cls):\n                    return idx\n", "        for idx, ax in enumerate(self.dims):\n            if ax.name == name and (cls is None or isinstance(ax, cls)):\n                return idx\n"),
    ("C23", "bad", AO, "        if len(self.dims) != self.ndim:\n            raise HFArrayShapeDimsMismatchError", "        if len(self.dims) < self.ndim:\n            raise HFArrayShapeDimsMismatchError"),
    ("C23", "bad", AO, "        subarr.verify_dimension()\n", ""),
    ("C23", "bad", AO, '                msg = ("On creation of %s *dims* "\n                       "must be specified" % subtype.__name__)\n                raise DimensionMismatchError(msg)', '                dims = tuple(DimRep("dim%d" % i, range(n)) for i, n in enumerate(subarr.shape))'),
    ("C23", "bad", AO, '            if dims is not None:\n                raise ValueError("Can not specify both info and dims")\n            dims = info', '            dims = info'),
    ("C23", "bad", AO, '            msg = "There are several %r present in %r"\n            msg = msg % (axis, a.dims)\n            raise IndexError(msg)', '            return outaxis[0]'),
    ("C23", "bad", AO, '            if not found:\n                msg = "%r dimension not present in dims %r"\n                raise IndexError(msg % (ax.__name__, a.dims))\n', ''),
    ("C23", "bad", AO, '            msg = msg % (ax, a.dims)\n            raise IndexError(msg)', '            continue'),
    ("C23", "bad", AO, '        raise IndexError(msg % (axis, a.dims))', '        return a.dims[0]'),
    ("C23", "ok", AO, '    elif axis in a.dims:\n        return axis\n    else:\n        msg = "%r not a valid dimension for %r"\n        raise IndexError(msg % (axis, a.dims))', '    if axis not in a.dims:\n        raise IndexError("%r not a valid dimension" % (axis,))\n    return axis'),
    ("C23", "bad", AO, '        elif ellips_count > 1:\n            raise IndexError("Can not handle more than one Ellipsis")\n', ''),
    ("C23", "bad", AO, '        if axis is None:\n            raise HFArrayError("Must choose axis for cumulative product")\n        axis = axis_handler(self, axis)\n        result = np.asarray(self).cumsum', '        if axis is None:\n            axis = 0\n        axis = axis_handler(self, axis)\n        result = np.asarray(self).cumsum'),
    ("C23", "bad", DS, '            msg = "%r not value or index in %r"\n            msg = msg % (name, self.blockname)\n            raise DataBlockError(msg)', '            pass'),
    ("C23", "bad", DS, '            msg = "%r dimension not present in datablock ivars: %r"\n            msg = msg % (olddim, self.ivardata.keys())\n            raise KeyError(msg)\n', '            return\n'),
    ("C23", "bad", DS, '        if boolarray.squeeze().ndim > 1:\n            raise ValueError("filter can only use array with one dimension")\n', ''),
    ("C23", "bad", DS, '        if boolarray.squeeze().ndim > 1:', '        if boolarray.squeeze().ndim > 2:'),
    ("C23", "ok", DS, '        if boolarray.squeeze().ndim > 1:', '        if not boolarray.squeeze().ndim <= 1:'),
    ("C23", "bad", DS, '            raise KeyError("No data named %r is available" % (key,))', '            return None'),
    ("C23", "bad", DS, '                msg = msg % mname\n                raise KeyError(msg)', '                return None'),
    ("C23", "bad", DS, '                    if len(value.dims) != 1:\n                        msg = "ndim mismatch when trying to set ivardata,"\\\n                              " can only have one dimension"\n                        raise AttributeError(msg)\n', ''),
    ("C23", "bad", DS, '        if not bools.any(axis=1).all():\n            raise ValueError("Missing x-values")\n', ''),
    ("C23", "bad", DS, '        if not bools.any(axis=1).all():', '        if not bools.any(axis=1).any():'),
    ("C23", "bad", DS, '    elif mode in ["linear"]:\n        data = interp1d(y.dims[dimidx].data, y, axis=dimidx)(newx.data)\n    else:\n        raise ValueError("Interpolation mode %r unknown" % mode)', '    else:\n        data = interp1d(y.dims[dimidx].data, y, axis=dimidx)(newx.data)'),
    ("C23", "bad", MA, '        raise ValueError("Can not interpolate below lowest value")', '        xi = xi.clip(x.min())'),
    ("C23", "bad", MA, '    if xi.min() < x.min():', '    if xi.max() < x.min():'),
    ("C23", "bad", MA, '    elif xi.max() > x.max():\n        raise ValueError("Can not interpolate below highest value")\n', ''),
    ("C23", "bad", MA, '    elif xi.max() > x.max():', '    elif xi.min() > x.max():'),
    ("C23", "ok", MA, '    if xi.min() < x.min():\n        raise ValueError("Can not interpolate below lowest value")\n    elif xi.max() > x.max():', '    if x.min() > xi.min():\n        raise ValueError("Can not interpolate below lowest value")\n    if x.max() < xi.max():'),
    ("C23", "bad", MP, '        if data.shape[-1] != 2:\n            raise ValueError("%s must be a 2x2 matrix")\n', ''),
    ("C23", "bad", MP, '                raise ValueError(msg)\n        elif Z0', '                self[...] = data\n        elif Z0'),
    ("C23", "bad", NO, '        raise Exception("Can only convert passive Y, Z, and S to NoisyTwoport")', '        C = 0 * twoport'),
    ("C23", "bad", SU, '        raise ValueError(msg)', '        return string_number, None'),
    ("C23", "bad", "file_formats/merge.py", '        raise HFToolsHyperCubeError(msg)', '        print(msg)'),
    ("C23", "bad", "file_formats/merge.py", '    if len(p) != len(association_list):', '    if len(p) < len(association_list):'),
    ("C23", "bad", "dataset/dim.py", '            raise IndexError("Must index with slice")', '            return self.data[index]'),
    ("C20", "bad", AO, 'q = ndarray.__rxor__(self, other)\n', 'pass\n'),
    ("C20", "bad", DS, "            i = data.dims_index(boolarray.dims[0])\n", "            pass\n"),
    ("C20", "bad", "file_formats/mdif.py", "    scalar = []\n", "    pass\n"),
    ("C20", "bad", "file_formats/merge.py", "    unit = []\n", "    pass\n"),
    ("C20", "bad", "file_formats/readbase.py", " filenames = [filename]\n", " pass\n"),
    ("C20", "bad", NO, "        _, T_s2d, _ = convert(self.N.P, N.P, self.N)", "        _, T_s2d = convert(self.N.P, N.P, self.N, 50)"),
    ("C20", "bad", "file_formats/common.py", "        sweepvars = ()\n", "        pass\n"),
    ("C20", "bad", "file_formats/citi.py", "self.verbose", "self.verbosity"),
    ("C20", "ok", DS, "i = data.dims_index(boolarray.dims[0])\n", "d0 = boolarray.dims; i = data.dims_index(d0[0])\n"),
    ("C20", "bad", "plotting/helper.py", "list(map(int, _reg_split_wm_geometry.split(wm_geom)))[2:]", "map(int, _reg_split_wm_geometry.split(wm_geom))[2:]"),
]
