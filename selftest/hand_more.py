"""More hand-written edits that keep the behaviour (see hand.py)."""
FF = "hftools/file_formats/"
DS = "hftools/dataset/"
NW = "hftools/networks/"
PL = "hftools/plotting/"


def edits(ed):
    # -- dim -----------------------------------------------------------------
    ed(DS + "dim.py", '''
        if len(self._data) == 0:
            d = np.array([])
        elif isinstance(self._data[0], (np.datetime64, datetime.datetime)):
            d = np.asarray(self._data, np.dtype("datetime64[us]"))
        else:
            d = np.asarray(self._data)
        return d
''', '''
        if not self._data:
            return np.array([])
        first = self._data[0]
        if isinstance(first, (datetime.datetime, np.datetime64)):
            return np.asarray(self._data, np.dtype("datetime64[us]"))
        return np.asarray(self._data)
''')
    ed(DS + "dim.py", '''
        if self._outputformat is None:
            if is_integer(self._data[0]):
                return "%d"
            elif is_numlike(self._data[0]):
                return "%.16e"
            else:
                return "%s"
        return self._outputformat
''', '''
        if self._outputformat is not None:
            return self._outputformat
        sample = self._data[0]
        if is_integer(sample):
            fmt = "%d"
        elif is_numlike(sample):
            fmt = "%.16e"
        else:
            fmt = "%s"
        return fmt
''')
    ed(DS + "dim.py", '''
        if isinstance(index, slice) and (index == slice(None, None, None)):
            return self
        elif isinstance(index, slice):
            a = self.__class__(self.name, self.data[index], unit=self.unit,
                               outputformat=self.outputformat)
            return a
        elif isinstance(index, np.ndarray):
            a = self.__class__(self.name, self.data[index], unit=self.unit,
                               outputformat=self.outputformat)
            return a
        else:
            raise IndexError("Must index with slice")
''', '''
        if not isinstance(index, (slice, np.ndarray)):
            raise IndexError("Must index with slice")
        if isinstance(index, slice) and index == slice(None, None, None):
            return self
        return self.__class__(self.name, self.data[index], unit=self.unit,
                              outputformat=self.outputformat)
''')
    ed(DS + "dim.py", '''
    def __eq__(self, other):
        a = (self.sortprio, self.name, self.__class__, self._data,
             self._unit, self._outputformat)
        try:
            b = (other.sortprio, other.name, other.__class__, other._data,
                 other._unit, self._outputformat)
        except AttributeError:
            a = self.name
            b = other
        return a == b
''', '''
    def _sortkey(self):
        return (self.sortprio, self.name, self.__class__, self._data,
                self._unit, self._outputformat)

    def __eq__(self, other):
        try:
            b = (other.sortprio, other.name, other.__class__, other._data,
                 other._unit, self._outputformat)
        except AttributeError:
            return self.name == other
        return self._sortkey() == b
''')
    # -- dataset -------------------------------------------------------------
    ed(DS + "dataset.py", '''
    for k, v in db.vardata.items():
        if set(v.dims) == dimset:
            out[k] = v
        elif set(v.dims) == set(dims[1:]):
            out[k] = v
    return out
''', '''
    accepted = (dimset, set(dims[1:]))
    for k, v in db.vardata.items():
        if set(v.dims) in accepted:
            out[k] = v
    return out
''')
    ed(DS + "dataset.py", '''
            for i, _ in enumerate(v.dims[v.dims_index("i")].data, 1):
                for j, _ in enumerate(v.dims[v.dims_index("j")].data, 1):
                    out[formatelement(k, i, j)] = v[..., i - 1, j - 1]
''', '''
            rows = len(v.dims[v.dims_index("i")].data)
            cols = len(v.dims[v.dims_index("j")].data)
            for i in range(rows):
                for j in range(cols):
                    out[formatelement(k, i + 1, j + 1)] = v[..., i, j]
''')
    ed(DS + "dataset.py", '''
    res = reg_matrix_name.match(x)
    if res:
        return res.groups()[0], tuple(int(x) - 1 for x in res.groups()[2])
    else:
        return None, None
''', '''
    res = reg_matrix_name.match(x)
    if not res:
        return None, None
    name, _, digits = res.groups()
    return name, tuple(int(digit) - 1 for digit in digits)
''')
    ed(DS + "dataset.py", '''
    def copy(self):
        out = DataBlock()
        out.blockname = self.blockname
        if self.comments:
            out.comments = self.comments.copy()
        out.vardata = self.vardata.copy()
        out.ivardata = self.ivardata.copy()
        out.xname = self.xname
        out._outputformat = self._outputformat
        return out

    def view(self):
        out = DataBlock()
        out.blockname = self.blockname
        out.comments = self.comments
        out.vardata = self.vardata.view()
        out.ivardata = self.ivardata.copy()
        out.xname = self.xname
        out._outputformat = self._outputformat
        return out
''', '''
    def _like_self(self, vardata, comments):
        out = DataBlock()
        out.blockname = self.blockname
        out.comments = comments
        out.vardata = vardata
        out.ivardata = self.ivardata.copy()
        out.xname = self.xname
        out._outputformat = self._outputformat
        return out

    def copy(self):
        comments = self.comments.copy() if self.comments else None
        return self._like_self(self.vardata.copy(), comments)

    def view(self):
        return self._like_self(self.vardata.view(), self.comments)
''')
    ed(DS + "dataset.py", '''
        out = list(self.ivardata.keys())
        for x in self.vardata.keys():
            if x not in out:
                out.append(x)
        return out
''', '''
        out = list(self.ivardata.keys())
        out.extend(x for x in self.vardata.keys() if x not in out)
        return out
''')
    ed(DS + "dataset.py", '''
            newinfo = list(data.dims)
            reorder = list(range(data.ndim))
            del newinfo[i]
            del reorder[i]
            reorder = tuple([i] + reorder)
            newinfo = tuple([newdim] + newinfo)
            data = data.transpose(*reorder)
''', '''
            others = [n for n in range(data.ndim) if n != i]
            reorder = tuple([i] + others)
            newinfo = tuple([newdim] + [data.dims[n] for n in others])
            data = data.transpose(*reorder)
''')
    ed(DS + "dataset.py", '''
        for v in self.vardata.keys()[:]:
            data = self.vardata[v].view()
            try:
                i = data.dims_index(dimname)
                out[v] = data.take(sortorder, i)
            except IndexError:  # This variable does not contain sort direction
                out[v] = data
                continue

        olddim = self.ivardata[dimname]
        out.xname = self.xname
        data = self[dimname][sortorder]
        out.replace_dim(olddim, olddim.__class__(olddim, data=data))
        return out
''', '''
        for name, value in self.vardata.items():
            data = value.view()
            try:
                out[name] = data.take(sortorder, data.dims_index(dimname))
            except IndexError:  # This variable does not contain sort direction
                out[name] = data

        out.xname = self.xname
        olddim = self.ivardata[dimname]
        newdim = olddim.__class__(olddim, data=self[dimname][sortorder])
        out.replace_dim(olddim, newdim)
        return out
''')
    ed(DS + "dataset.py", '''
        if guessunit:
            if isinstance(guessunit, string_types):
                varnames = [guessunit]
            elif isinstance(guessunit, (list, tuple, set, dict)):
                varnames = list(guessunit)
            else:
                varnames = self.allvarnames
                if self.comments:
                    varnames.extend(self.comments.property)
            for varname in varnames:
                unit = guess_unit_from_varname(varname)
                if varname in self and self[varname].unit is None:
                    if varname in self.ivardata:
                        olddim = self.ivardata[varname]
                        newdim = olddim.__class__(olddim, unit=unit)
                        self.replace_dim(olddim, newdim)
                    else:
                        self[varname].unit = unit
                if self.comments:
                    prop = self.comments.property
                    if varname in prop and prop[varname]:
                        v = prop[varname]
                        if getattr(v, "unit", "") is None:
                            v.unit = unit
''', '''
        if not guessunit:
            return
        if isinstance(guessunit, string_types):
            varnames = [guessunit]
        elif isinstance(guessunit, (list, tuple, set, dict)):
            varnames = list(guessunit)
        else:
            varnames = self.allvarnames
            if self.comments:
                varnames.extend(self.comments.property)
        for varname in varnames:
            self._guess_unit_of(varname)

    def _guess_unit_of(self, varname):
        unit = guess_unit_from_varname(varname)
        if varname in self and self[varname].unit is None:
            if varname in self.ivardata:
                olddim = self.ivardata[varname]
                newdim = olddim.__class__(olddim, unit=unit)
                self.replace_dim(olddim, newdim)
            else:
                self[varname].unit = unit
        if self.comments:
            prop = self.comments.property
            if varname in prop and prop[varname]:
                v = prop[varname]
                if getattr(v, "unit", "") is None:
                    v.unit = unit
''')
    ed(DS + "dataset.py", '''
        for x in dimnames:
            if indexed:
                newname = "%s_index" % x
            else:
                newname = x
            values = stable_uniq(self[x])
            dims.append(DimSweep(newname, values,
                                 unit=self[x].unit,
                                 outputformat=self[x].outputformat))
            sortdata.append([values.index(value) for value in self[x]])
''', '''
        for dimname in dimnames:
            newname = "%s_index" % dimname if indexed else dimname
            column = self[dimname]
            values = stable_uniq(column)
            sortdata.append([values.index(value) for value in column])
            dims.append(DimSweep(newname, values, unit=column.unit,
                                 outputformat=column.outputformat))
''')
    ed(DS + "dataset.py", '''
            i = v.dims_index(replacedim)
            v = hfarray(v.take(sortorderidx, axis=i), copy=False, order="C")
            new_shape = v.shape[:i] + dims_shape + v.shape[i + 1:]
            v.shape = new_shape
            v.dims = v.dims[:i] + dims + v.dims[i + 1:]
            out[k] = v
''', '''
            i = v.dims_index(replacedim)
            taken = v.take(sortorderidx, axis=i)
            new = hfarray(taken, copy=False, order="C")
            before, after = slice(None, i), slice(i + 1, None)
            new.shape = new.shape[before] + dims_shape + new.shape[after]
            new.dims = new.dims[before] + dims + new.dims[after]
            out[k] = new
''')
    ed(DS + "dataset.py", '''
    mode = getattr(y, "interpolationmode", defaultmode)
    if isinstance(newx, (_hfarray,)):
        if len(newx.dims) != 1:
            raise ValueError("hfarray must have one dimension")
        else:
            newx = newx.dims[0]
    if newx not in y.dims:
        return y
''', '''
    if isinstance(newx, _hfarray):
        if len(newx.dims) != 1:
            raise ValueError("hfarray must have one dimension")
        newx, = newx.dims
    if newx not in y.dims:
        return y
    mode = getattr(y, "interpolationmode", defaultmode)
''')
    ed(DS + "dataset.py", '''
        try:
            return hfarray(self.ivardata[key])
        except KeyError:
            try:
                return self.vardata[key]
            except KeyError:
                pass
        mname, elem = is_matrix_name(key)
''', '''
        if key in self.ivardata:
            return hfarray(self.ivardata[key])
        if key in self.vardata:
            return self.vardata[key]
        mname, elem = is_matrix_name(key)
''')
    # -- config --------------------------------------------------------------
    ed(FF + "config.py", '''
        out = []
        for v in self:
            if hasattr(v, "convert_to_standard"):
                out.append(v.convert_to_standard())
            else:
                out.append(v)
        return out
''', '''
        return [v.convert_to_standard() if hasattr(v, "convert_to_standard")
                else v for v in self]
''')
    ed(FF + "config.py", '''
    try:
        parent = dct.parent
    except AttributeError:
        return None
    if isinstance(parent, dict):
        return parent
    else:
        return find_next_dict(parent)
''', '''
    while True:
        try:
            dct = dct.parent
        except AttributeError:
            return None
        if isinstance(dct, dict):
            return dct
''')
    ed(FF + "config.py", '''
        if OrderedDict.__contains__(self, key):
            return OrderedDict.__getitem__(self, key)
        elif ((not OrderedDict.__contains__(self, key)) and
              (self.parent is not None)):
            dct = find_next_dict(self)
            if dct is None:
                raise KeyError("%r not in dictionary" % key)
            else:
                return dct[key]
        else:
            raise KeyError("%r not in dictionary" % key)
''', '''
        if OrderedDict.__contains__(self, key):
            return OrderedDict.__getitem__(self, key)
        if self.parent is not None:
            scope = find_next_dict(self)
            if scope is not None:
                return scope[key]
        raise KeyError("%r not in dictionary" % key)
''')
    ed(FF + "config.py", '''
        for dct in self.dicts:
            if key in dct:
                return True
        if self.parent:
            return key in self.parent
        return False
''', '''
        if any(key in dct for dct in self.dicts):
            return True
        return key in self.parent if self.parent else False
''')
    ed(FF + "config.py", '''
    if kind == "%":
        return float(v) * 0.01
    elif kind == "ppm":
        return float(v) * 1e-6
    elif kind == "ppb":
        return float(v) * 1e-9
    else:  # pragma: no cover
        raise ValueError("Not a valid percent, ppm, ppb kind %r" % kind)
''', '''
    factors = {"%": 0.01, "ppm": 1e-6, "ppb": 1e-9}
    if kind not in factors:  # pragma: no cover
        raise ValueError("Not a valid percent, ppm, ppb kind %r" % kind)
    return float(v) * factors[kind]
''')
    ed(FF + "config.py", '''
    days = 0 if days is None else float(days)
    hours = 0 if hours is None else float(hours)
    minutes = 0 if minutes is None else float(minutes)
    seconds = 0 if seconds is None else float(seconds)

    return datetime.timedelta(days=days,
                              hours=hours,
                              minutes=minutes,
                              seconds=seconds)
''', '''
    def number(text):
        return 0 if text is None else float(text)

    return datetime.timedelta(days=number(days), hours=number(hours),
                              minutes=number(minutes),
                              seconds=number(seconds))
''')
    ed(FF + "config.py", '''
    tremain = data.total_seconds()
    days = tremain // (3600 * 24)
    tremain = tremain - days * 3600 * 24
    hours = tremain // (3600)
    tremain = tremain - hours * 3600
    minutes = tremain // 60
    tremain = tremain - minutes * 60
    seconds = tremain
    out = []
''', '''
    days, tremain = divmod(data.total_seconds(), 24 * 3600)
    hours, tremain = divmod(tremain, 3600)
    minutes, seconds = divmod(tremain, 60)
    out = []
''')
    ed(FF + "config.py", '''
    h, m, _, s = res.groups()
    if s is None:
        s = 0
    t = datetime.time(int(h), int(m), int(s))
    dnow = datetime.datetime.today()
    d2 = datetime.datetime.combine(dnow, t)
    if d2 < dnow:
        d2 = d2 + datetime.timedelta(days=1)
    return d2
''', '''
    hour, minute, _, second = res.groups()
    t = datetime.time(int(hour), int(minute), int(second or 0))
    now = datetime.datetime.today()
    when = datetime.datetime.combine(now, t)
    if now > when:
        when += datetime.timedelta(days=1)
    return when
''')
    # -- smith ---------------------------------------------------------------
    ed(PL + "smith.py", '''
    if deg:
        add = 360
        offset = np.exp(1j * branch / 180. * np.pi)
    else:
        add = 2 * np.pi
        offset = np.exp(1j * branch)
    x = x / offset
''', '''
    add = 360 if deg else 2 * np.pi
    if deg:
        offset = np.exp(1j * branch / 180. * np.pi)
    else:
        offset = np.exp(1j * branch)
    x = x / offset
''')
    ed(PL + "smith.py", '''
    if np.isinf(abs(z)):
        if np.imag(z) >= 0:
            return 1 + 0j
        else:
            return 1 - 1e-15j
    else:
        return (z - 1) / (z + 1)
''', '''
    if not np.isinf(abs(z)):
        return (z - 1) / (z + 1)
    return 1 + 0j if np.imag(z) >= 0 else 1 - 1e-15j
''')
    ed(PL + "smith.py", '''
    x0, y0 = (r / (r + 1.), 0)
    radius = abs(1 / (r + 1.))
    t1 = t2 = None
    if x1 is None or x2 is None:
        pass
    else:
        x1, x2 = min(x1, x2), max(x1, x2)
        z1 = complex(r, x1)
        z2 = complex(r, x2)
        c1 = z2gamma(z1)
        c2 = z2gamma(z2)
        c0 = complex(x0, y0)
        t1 = angle(c2 - c0, deg=True)
        t2 = angle(c1 - c0, deg=True)
    return MyCircle(x0, y0, radius, t1, t2)
''', '''
    x0, y0 = r / (r + 1.), 0
    radius = abs(1 / (r + 1.))
    if x1 is None or x2 is None:
        return MyCircle(x0, y0, radius, None, None)
    xlow, xhigh = min(x1, x2), max(x1, x2)
    center = complex(x0, y0)
    t1 = angle(z2gamma(complex(r, xhigh)) - center, deg=True)
    t2 = angle(z2gamma(complex(r, xlow)) - center, deg=True)
    return MyCircle(x0, y0, radius, t1, t2)
''')
    ed(PL + "smith.py", '''
        kw = kw.copy()
        if "fc" in kw:
            del kw["fc"]
        return plt.Polygon(np.array([(self.x1, self.y1),
                                    (self.x2, self.y2)]), *k, **kw)
''', '''
        kw = dict(kw)
        kw.pop("fc", None)
        ends = np.array([(self.x1, self.y1), (self.x2, self.y2)])
        return plt.Polygon(ends, *k, **kw)
''')
    ed(PL + "smith.py", '''
def smith_lower(ax=None):
    if ax is None:
        ax = plt.gca()
    ax.xaxis.set_ticks([])
    ax.yaxis.set_ticks([])
    ax.set_frame_on(False)
    ax.axis("equal")
    ax.axis([-1.01, 1.01, -1.01, 1.01])

    smith_grid(ax, "lower")
''', '''
def smith_lower(ax=None):
    smith_grid(empty_grid(ax), "lower")
''')
    ed(PL + "smith.py", '''
    xcircles = [0]
    if mode in ["full", "lower"]:
        xcircles.extend(lower)
    if mode in ["full", "upper"]:
        xcircles.extend(upper)

    for x in xcircles:
        circ = XC(x, 0, np.inf)
        ax.add_patch(circ.get_artist(color="k"))
''', '''
    xcircles = [0]
    if mode in ("full", "lower"):
        xcircles += lower
    if mode in ("full", "upper"):
        xcircles += upper

    for x in xcircles:
        ax.add_patch(XC(x, 0, np.inf).get_artist(color="k"))
''')
