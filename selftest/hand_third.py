"""A third batch of hand-written edits that keep the behaviour."""
FF = "hftools/file_formats/"
DS = "hftools/dataset/"
NW = "hftools/networks/"
PL = "hftools/plotting/"


def edits(ed):
    # -- arrayobj ------------------------------------------------------------
    ed(DS + "arrayobj.py", '''
    newselfshape = []
    neworder = []
    selfdims = x.dims
    for dim in newdims:
        if dim in x.dims:
            newselfshape.append(x.shape[selfdims.matching_index(dim)])
            neworder.append(selfdims.matching_index(dim))
        else:
            newselfshape.append(1)
    newself = newself.transpose(*neworder)
    newself.shape = tuple(newselfshape)
''', '''
    selfdims = x.dims
    shape = ()
    order = ()
    for dim in newdims:
        if dim not in selfdims:
            shape += (1,)
            continue
        position = selfdims.matching_index(dim)
        shape += (x.shape[position],)
        order += (position,)
    newself = newself.transpose(*order)
    newself.shape = shape
''')
    ed(DS + "arrayobj.py", '''
    order = [(i, dim) for i, dim in enumerate(data.dims)
             if isinstance(dim, DimRep)]
#    pdb.set_trace()

    if order:
        dims = list(zip(*order))[1]

        newdata = data.reorder_dimensions(*(data.dims[:order[0][0]] + dims))
        shapes = [data.shape[i] for i, _ in order]
        repsize = int(np.multiply.reduce(shapes))
        first = order[0][0]
        tail = first + len(order)
''', '''
    positions = [i for i, dim in enumerate(data.dims)
                 if isinstance(dim, DimRep)]

    if positions:
        first = positions[0]
        tail = first + len(positions)
        repdims = tuple(data.dims[i] for i in positions)

        newdata = data.reorder_dimensions(*(data.dims[:first] + repdims))
        repsize = int(np.multiply.reduce([data.shape[i] for i in positions]))
''')
    ed(DS + "arrayobj.py", '''
    i = False
    j = False
    if isinstance(a, _hfarray):
        for dim in a.dims:
            if isinstance(dim, DimMatrix_i):
                i = True
            elif isinstance(dim, DimMatrix_j):
                j = True
            else:
                pass
            if i and j:
                return True
    return False
''', '''
    if not isinstance(a, _hfarray):
        return False
    has_i = any(isinstance(dim, DimMatrix_i) for dim in a.dims)
    has_j = any(isinstance(dim, DimMatrix_j) for dim in a.dims)
    return has_i and has_j
''')
    ed(DS + "arrayobj.py", '''
        try:
            if self.__array_priority__ < other.__array_priority__:
                return NotImplemented
        except AttributeError:
            pass
        if isnumber(other):
            a, b = self, other
        else:
            a, b = make_same_dims(self, self.__class__(other))
        return func(a, b)
''', '''
        try:
            defer = self.__array_priority__ < other.__array_priority__
        except AttributeError:
            defer = False
        if defer:
            return NotImplemented
        if isnumber(other):
            return func(self, other)
        left, right = make_same_dims(self, self.__class__(other))
        return func(left, right)
''')
    ed(DS + "arrayobj.py", '''
    out = []
    for d in dims:
        if olddim.name == d.name:
            out.append(newdim)
        else:
            out.append(d)
    return Dims(out)
''', '''
    return Dims([newdim if d.name == olddim.name else d for d in dims])
''')
    ed(DS + "arrayobj.py", '''
        if outputformat is not None:
            subarr.outputformat = outputformat
        elif hasattr(data, "outputformat"):
            subarr.outputformat = data.outputformat
        else:
            if is_integer(subarr):
                subarr.outputformat = "%d"
            elif is_numlike(subarr):
                subarr.outputformat = "%.16e"
            elif np.issubdtype(subarr.dtype, np.datetime64):
                subarr.outputformat = "%s"
            else:
                subarr.outputformat = "%s"
''', '''
        if outputformat is not None:
            fmt = outputformat
        elif hasattr(data, "outputformat"):
            fmt = data.outputformat
        elif is_integer(subarr):
            fmt = "%d"
        elif is_numlike(subarr):
            fmt = "%.16e"
        else:
            fmt = "%s"
        subarr.outputformat = fmt
''')
    ed(DS + "arrayobj.py", '''
        newshape = (shape[0], int(np.multiply.reduce(shape[1:-2])))
        newshape = newshape + shape[-2:]
    else:
        newshape = (shape[0], int(np.multiply.reduce(shape[1:])))
''', '''
        newshape = ((shape[0], int(np.multiply.reduce(shape[1:-2]))) +
                    (shape[-2], shape[-1]))
    else:
        count = np.multiply.reduce(shape[1:])
        newshape = (shape[0], int(count))
''')
    # -- dataset -------------------------------------------------------------
    ed(DS + "dataset.py", '''
        try:
            return hfarray(self.ivardata[key])
        except KeyError:
            try:
                return self.vardata[key]
            except KeyError:
                pass
        mname, elem = is_matrix_name(key)
        if mname:
            data = self.vardata[mname]
            if ismatrix(data):
                idx = (Ellipsis,) + elem
                return data[idx]
            else:
                msg = "No matrix with name %r is available"
                msg = msg % mname
                raise KeyError(msg)
        else:
            raise KeyError("No data named %r is available" % (key,))
''', '''
        if key in self.ivardata:
            return hfarray(self.ivardata[key])
        if key in self.vardata:
            return self.vardata[key]
        mname, elem = is_matrix_name(key)
        if not mname:
            raise KeyError("No data named %r is available" % (key,))
        data = self.vardata[mname]
        if not ismatrix(data):
            raise KeyError("No matrix with name %r is available" % mname)
        return data[(Ellipsis,) + elem]
''')
    ed(DS + "dataset.py", '''
        out = list(self.ivardata.keys())
        for x in self.vardata.keys():
            if x not in out:
                out.append(x)
        return out
''', '''
        names = list(self.ivardata)
        names.extend(x for x in self.vardata if x not in names)
        return names
''')
    ed(DS + "dataset.py", '''
        return (key in self.vardata) or (key in self.ivardata)
''', '''
        for collection in (self.vardata, self.ivardata):
            if key in collection:
                return True
        return False
''')
    ed(DS + "dataset.py", '''
        out = DataBlock()
        out.blockname = self.blockname
        if self.comments:
            out.comments = self.comments.copy()
        out.vardata = self.vardata.copy()
        out.ivardata = self.ivardata.copy()
        out.xname = self.xname
        out._outputformat = self._outputformat
        return out
''', '''
        out = DataBlock()
        out.vardata = self.vardata.copy()
        out.ivardata = self.ivardata.copy()
        if self.comments:
            out.comments = self.comments.copy()
        out.blockname = self.blockname
        out._xname = self._xname
        out._outputformat = self._outputformat
        return out
''')
    ed(DS + "dataset.py", '''
        if boolarray.dtype != np.dtype(bool):
            if boolarray.dims[0].name not in self.ivardata:
                out = self.copy()
                msg = "Filter warning: DataBlock does not contain dimension %r"
                msg = msg % boolarray.dims[0]
                warn(msg)
                return out
            localdim = self.ivardata[boolarray.dims[0].name]
''', '''
        if boolarray.dtype != np.dtype(bool):
            wanteddim = boolarray.dims[0]
            if wanteddim.name not in self.ivardata:
                warn("Filter warning: DataBlock does not contain "
                     "dimension %r" % wanteddim)
                return self.copy()
            localdim = self.ivardata[wanteddim.name]
''')
    ed(DS + "dataset.py", '''
            newinfo = list(data.dims)
            reorder = list(range(data.ndim))
            del newinfo[i]
            del reorder[i]
            reorder = tuple([i] + reorder)
            newinfo = tuple([newdim] + newinfo)
            data = data.transpose(*reorder)
''', '''
            others = [k for k in range(data.ndim) if k != i]
            newinfo = (newdim,) + tuple(data.dims[k] for k in others)
            reorder = (i,) + tuple(others)
            data = data.transpose(*reorder)
''')
    ed(DS + "dataset.py", '''
            mname, elem = is_matrix_name(key)
            if mname in self.vardata and not ismatrix(value):
                idx = (Ellipsis,) + elem
                self.vardata[mname][idx] = value
            else:
                if (key in self.ivardata):
                    olddim = self.ivardata[key]
                    if len(value.dims) != 1:
                        msg = "ndim mismatch when trying to set ivardata,"\\
                              " can only have one dimension"
                        raise AttributeError(msg)
                    self.replace_dim(olddim, olddim.__class__(olddim,
                                                              data=value))
                else:
                    self.vardata[key] = value
                for dim in value.dims:
                    if dim.name not in self.ivardata:
                        self.ivardata[dim.name] = dim
''', '''
            mname, elem = is_matrix_name(key)
            if mname in self.vardata and not ismatrix(value):
                self.vardata[mname][(Ellipsis,) + elem] = value
                return
            if key not in self.ivardata:
                self.vardata[key] = value
            else:
                if len(value.dims) != 1:
                    msg = ("ndim mismatch when trying to set ivardata,"
                           " can only have one dimension")
                    raise AttributeError(msg)
                olddim = self.ivardata[key]
                newdim = olddim.__class__(olddim, data=value)
                self.replace_dim(olddim, newdim)
            for dim in value.dims:
                if dim.name in self.ivardata:
                    continue
                self.ivardata[dim.name] = dim
''')
    # -- multiports ----------------------------------------------------------
    ed(NW + "multiports.py", '''
            names = [self.shortname.lower(), self.shortname.upper(),
                     self.shortname]
            for name in names:
                for i in range(data.shape[-1]):
                    for j in range(data.shape[-1]):
                        label = "%s%d%d" % (name, i + 1, j + 1)
                        accessor = make_accessor(i, j)
                        self._attrfuns[label] = accessor
''', '''
            nports = data.shape[-1]
            for name in (self.shortname.lower(), self.shortname.upper(),
                         self.shortname):
                for i in range(nports):
                    for j in range(nports):
                        key = "%s%d%d" % (name, i + 1, j + 1)
                        self._attrfuns[key] = make_accessor(i, j)
''')
    ed(NW + "multiports.py", '''
            if Z0 is None:
                self.Z0 = getattr(data, "Z0", None)
            else:
                self.Z0 = Z0
            if self.ismatrix() and (data.shape[-1] == data.shape[-2]):
                view = data.view(type=hfarray, dtype=data.dtype)
                res, _, _ = convert(data.P, self.P, view)
                self.view(type=hfarray, dtype=self.dtype)[:] = res
            else:
                fmt = ("Can not convert subelements of a %s matrix to "
                       "elements of a %s matrix")
                msg = fmt % (data.__class__.__name__, self.__class__.__name__)
                raise ValueError(msg)
''', '''
            self.Z0 = getattr(data, "Z0", None) if Z0 is None else Z0
            if not self.ismatrix() or data.shape[-2] != data.shape[-1]:
                fmt = ("Can not convert subelements of a %s matrix to "
                       "elements of a %s matrix")
                raise ValueError(fmt % (data.__class__.__name__,
                                        self.__class__.__name__))
            source = data.view(type=hfarray, dtype=data.dtype)
            converted = convert(data.P, self.P, source)[0]
            self.view(type=hfarray, dtype=self.dtype)[:] = converted
''')
    ed(NW + "multiports.py", '''
        if left is None and right is None:
            return self
        elif left is None:
            return self.__class__(deembedright(SArray(self),
                                               SArray(right)))
        elif right is None:
            return self.__class__(deembedleft(SArray(left),
                                              SArray(self)))
        else:
            return self.__class__(deembed(SArray(left),
                                          SArray(self),
                                          SArray(right)))
''', '''
        if left is None and right is None:
            return self
        cls = self.__class__
        me = SArray(self)
        if left is None:
            result = deembedright(me, SArray(right))
        elif right is None:
            result = deembedleft(SArray(left), me)
        else:
            result = deembed(SArray(left), me, SArray(right))
        return cls(result)
''')
    ed(NW + "multiports.py", '''
        data = self.view(dtype=self.dtype, type=hfarray).__getitem__(idx)
        if ismatrix(data):
            out = self.__class__(data, copy=False)
            out.Z0 = self.Z0
            return out
        else:
            return data
''', '''
        plain = self.view(dtype=self.dtype, type=hfarray)
        data = plain[idx]
        if not ismatrix(data):
            return data
        out = self.__class__(data, copy=False)
        out._Z0 = self._Z0
        return out
''')
    ed(NW + "multiports.py", '''
        if dtype is None:
            dtype = self.dtype
        if type is None:
            x = np.ndarray.view(self, dtype=dtype, type=hfarray)
            out = self.__class__(x, dims=self.dims, copy=False)
            out.Z0 = self.Z0
            return out
        else:
            return np.ndarray.view(self, dtype=dtype, type=type)
''', '''
        dtype = self.dtype if dtype is None else dtype
        if type is not None:
            return np.ndarray.view(self, dtype=dtype, type=type)
        plain = np.ndarray.view(self, dtype=dtype, type=hfarray)
        result = self.__class__(plain, dims=self.dims, copy=False)
        result.Z0 = self.Z0
        return result
''')
    # -- touchstone ----------------------------------------------------------
    ed(FF + "touchstone.py", '''
        if not current_row:
            if output:
                if rad[0] <= output[-1][0]:
                    if N == 9:  # N==9 when two-port
                        noise, _ = _process_data(data[idx:], 5)
                        if noise:
                            return output, noise
                    return None, None
                else:
                    current_row.extend(rad)
            else:
                current_row.extend(rad)
        else:
            current_row.extend(rad)

        if len(current_row) > N:
            return None, None
        elif len(current_row) == N:
            output.append(current_row)
            current_row = []
    if current_row:
        return None, None
    return output, noise
''', '''
        if not current_row and output and rad[0] <= output[-1][0]:
            if N == 9:  # N==9 when two-port
                noise, _ = _process_data(data[idx:], 5)
                if noise:
                    return output, noise
            return None, None
        current_row.extend(rad)

        size = len(current_row)
        if size > N:
            return None, None
        if size == N:
            output.append(current_row)
            current_row = []
    return (None, None) if current_row else (output, noise)
''')
    ed(FF + "touchstone.py", '''
        for idx, rad in enumerate(stream):
            lineno = idx + 1
            rad = rad.strip()
            if not rad:  # skip empty lines
                continue
            elif rad.startswith("!"):  # Comment line with information
                yield Token("Comments", lineno, rad[1:].strip())
            elif rad.startswith("#"):
                if is_touchstone(None, rad):
                    yield Token("Info", lineno, rad[1:].strip())
                else:
                    msg = "# format is invalid on line: %s" % lineno
                    raise TouchstoneError(msg)
            else:
                yield Token("Data", lineno, rad.split("!", 1)[0].strip())
''', '''
        for lineno, line in enumerate(stream, 1):
            line = line.strip()
            if line == "":
                continue
            if line[0] == "!":
                yield Token("Comments", lineno, line[1:].strip())
            elif line[0] == "#":
                if not is_touchstone(None, line):
                    raise TouchstoneError("# format is invalid on line: %s"
                                          % lineno)
                yield Token("Info", lineno, line[1:].strip())
            else:
                yield Token("Data", lineno, line.split("!", 1)[0].strip())
''')
    ed(FF + "touchstone.py", '''
        N = 2 * n ** 2 + 1  # number of data points per frequency
''', '''
        N = 1 + 2 * n * n  # number of data points per frequency
''')
    ed(FF + "touchstone.py", '''
    output, noise = process_data(data)
    data = np.array(output)
    f = np.array(data[:, 0])
    s = data[:, 1:]
    if noise:
        data = np.array(noise)
        fn = data[:, 0]
        noisedata = np.array(data[:, 1:], dtype=np.float64)
        return f, s, fn, noisedata
    else:
        return f, s, None, None
''', '''
    rows, noiserows = process_data(data)
    table = np.array(rows)
    f, s = np.array(table[:, 0]), table[:, 1:]
    fn = noisedata = None
    if noiserows:
        noisetable = np.array(noiserows)
        fn = noisetable[:, 0]
        noisedata = np.array(noisetable[:, 1:], dtype=np.float64)
    return f, s, fn, noisedata
''')
    # -- math ----------------------------------------------------------------
    ed("hftools/math.py", '''
    if deg:
        b = -180 if branch is None else branch
        B = (b - (-180))
        b = B / 180. * np.pi
    else:
        b = -np.pi if branch is None else branch
        B = (b - (-np.pi))
        b = B
    Z = np.asanyarray(z) / exp(1j * b)
    res = np.angle(Z, deg)
    res = res + B
''', '''
    half = 180 if deg else np.pi
    start = -half if branch is None else branch
    offset = start + half
    rotation = offset * np.pi / 180. if deg else offset
    res = np.angle(np.asanyarray(z) / exp(1j * rotation), deg) + offset
''')
    ed("hftools/math.py", '''
    if isinstance(x, np.ndarray):
        x = x.copy()
        x[abs(x) < threshold] = 0
        return x
    else:
        if abs(x) < threshold:
            return 0 * x
        else:
            return x
''', '''
    if not isinstance(x, np.ndarray):
        return x if not abs(x) < threshold else 0 * x
    out = x.copy()
    small = abs(out) < threshold
    out[small] = 0
    return out
''')
    ed("hftools/math.py", '''
    return dBinv(mag) * exp(1j * pi * ang / 180.)
''', '''
    return mag_angle_to_complex(dBinv(mag), ang)
''')
    ed("hftools/math.py", '''
    f_mean = (freq[:-1] + freq[1:]) / 2
    domega = (2 * pi * (freq[:-1] - freq[1:]))
    dfi = angle(var[1:] / var[:-1])
    return (f_mean, dfi / domega)
''', '''
    low, high = freq[:-1], freq[1:]
    f_mean = 0.5 * (low + high)
    dphase = angle(var[1:] / var[:-1])
    tau = dphase / (2 * pi * (low - high))
    return f_mean, tau
''')
    # -- citi ----------------------------------------------------------------
    ed(FF + "citi.py", '''
            if tagname.startswith("VAR_LIST"):
                datalist = handle_data(ManyOptional("DATA")(stream), typ)
                block[name] = DimSweep(name, datalist)
                One("VAR_LIST_END", "Missing VAR_LIST_END")(stream)
            elif tagname.startswith("SEG"):  # pragma: no branch
                datalist, = One("SEG", "Missing SEG")(stream)
                _, start, stop, step = datalist.strip().split()
                block[name] = DimSweep(name,
                                       np.linspace(float(start),
                                                   float(stop),
                                                   int(step)))
                One("SEG_LIST_END", "Missing SEG_LIST_END")(stream)
            else:  # pragma: no cover
                pass
''', '''
            if tagname.startswith("VAR_LIST"):
                values = handle_data(ManyOptional("DATA")(stream), typ)
                block[name] = DimSweep(name, values)
                One("VAR_LIST_END", "Missing VAR_LIST_END")(stream)
            elif tagname.startswith("SEG"):  # pragma: no branch
                segment = One("SEG", "Missing SEG")(stream)[0]
                _, start, stop, step = segment.split()
                grid = np.linspace(float(start), float(stop), int(step))
                block[name] = DimSweep(name, grid)
                One("SEG_LIST_END", "Missing SEG_LIST_END")(stream)
''')
