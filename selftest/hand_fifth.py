"""A fifth batch of hand-written edits that keep the behaviour."""
FF = "hftools/file_formats/"
DS = "hftools/dataset/"
NW = "hftools/networks/"
CO = "hftools/constants/"


def edits(ed):
    c = FF + "common.py"
    # -- file_formats/common -------------------------------------------------
    ed(c, '''
    for convfun in convertors:
        try:
            return convfun(*vars)
        except ValueError:
            pass
    raise ValueError
''', '''
    for convfun in convertors:
        try:
            result = convfun(*vars)
        except ValueError:
            continue
        else:
            return result
    raise ValueError
''')
    ed(c, '''
        value = " ".join(value.strip().split())
        if reg_date.match(value):
            return np.datetime64(value)
        else:
            raise ValueError
''', '''
        value = " ".join(value.split())
        if not reg_date.match(value):
            raise ValueError
        return np.datetime64(value)
''')
    ed(c, '''
    reg = reg_comment_all.match(comment)
    out = {}
    if reg:
        varname, _, unit, value = reg.groups()
        if unit is None:
            try:
#                value = string_number_with_unit_to_value(value)
                value = convert([string_number_with_unit_to_value,
                                 to_numeric,
                                 conv_date_time,
                                 conv_date], value)
            except ValueError:
                pass
        else:
            try:
                value = convert([convert_with_unit], unit, value)
            except ValueError:
                pass
        out[varname] = value
    return out
''', '''
    reg = reg_comment_all.match(comment)
    if not reg:
        return {}
    varname, _, unit, value = reg.groups()
    try:
        if unit is None:
            value = convert([string_number_with_unit_to_value,
                             to_numeric,
                             conv_date_time,
                             conv_date], value)
        else:
            value = convert_with_unit(unit, value)
    except ValueError:
        pass
    return {varname: value}
''')
    ed(c, '''
        comment = comment.lstrip("!").strip()
        if comment:
            for key, v in process_comment(comment).items():
                self.property[key] = v
''', '''
        stripped = comment.lstrip("!").strip()
        if not stripped:
            return
        self.property.update(process_comment(stripped))
''')
    ed(c, '''
        self.fullcomments.extend(comment.fullcomments)
        for k, v in comment.property.items():
            self.property[k] = v
''', '''
        self.fullcomments += comment.fullcomments
        self.property.update(comment.property)
''')
    ed(c, '''
        out = Comments()
        out.fullcomments = self.fullcomments[:]
        out.property = self.property.copy()
        return out
''', '''
        new = Comments()
        new.property = dict(self.property)
        new.fullcomments = list(self.fullcomments)
        return new
''')
    ed(c, '''
        res = regexp.match(old)
        if res and res.groups()[0] == functionname:
            new = newpat % res.groups()[1]
            return new
        else:
            return old
''', '''
        res = regexp.match(old)
        if not res:
            return old
        name, argument = res.groups()
        if name != functionname:
            return old
        return newpat % argument
''')
    ed(c, '''
    for old, new in _trtable.items():
        if old in data and new in data:
            continue
        out.rename(old, new)
    meantr''', '''
    for old in _trtable:
        new = _trtable[old]
        if not (old in data and new in data):
            out.rename(old, new)
    meantr''')
    ed(c, '''
            new = trfunk(old)
            if new == old:
                pass
            elif new in out.vardata:
                msg = ("%r already in data when trying to "
                       "normalize %r") % (new, old)
                raise ValueError(msg)
            else:
                out.rename(old, new)
''', '''
            new = trfunk(old)
            if new == old:
                continue
            if new in out.vardata:
                raise ValueError("%r already in data when trying to "
                                 "normalize %r" % (new, old))
            out.rename(old, new)
''')
    ed(c, '''
        if ismatrix(col):
            for i in range(col.dims[-2].data.shape[0]):
                for j in range(col.dims[-1].data.shape[0]):
                    if fortranorder:
                        I, J = j, i
                    else:
                        I, J = i, j
                    fullheader.append(fmt_matrix % (colname, I + 1, J + 1))
                    fullcolumns.append(col[..., I, J])
        else:
            fullheader.append(colname)
            fullcolumns.append(col)
''', '''
        if not ismatrix(col):
            fullcolumns.append(col)
            fullheader.append(colname)
            continue
        rows = col.dims[-2].data.shape[0]
        cols = col.dims[-1].data.shape[0]
        for i in range(rows):
            for j in range(cols):
                I, J = (j, i) if fortranorder else (i, j)
                fullcolumns.append(col[..., I, J])
                fullheader.append(fmt_matrix % (colname, I + 1, J + 1))
''')
    ed(c, '''
    if np.iscomplexobj(elem):
        return [fmt % elem.real, fmt % elem.imag]
    else:
        return [fmt % elem]
''', '''
    parts = (elem.real, elem.imag) if np.iscomplexobj(elem) else (elem,)
    return [fmt % part for part in parts]
''')
    ed(c, '''    return head + " " * (max(len(head), width) - len(head))
''', '''    return head.ljust(width)
''')
    ed(c, '''    return head + " " * (max(len(head), width) - len(head))
''', '''    missing = max(width - len(head), 0)
    return head + missing * " "
''')
    ed(c, '''
        res = findpad_reg.match(col.outputformat)
        if padheader and res:
            width = int(res.groups()[0])
        else:
            width = 0
        if np.iscomplexobj(col):
            value = format_unit_header(realfmt % colname, col, unit_fmt)

            outheader.append(padhead(value, width))
            if imagfmt is not None:
                value = format_unit_header(imagfmt % colname, col, unit_fmt)
                outheader.append(padhead(value, width))
        else:
            value = format_unit_header(floatfmt % colname, col, unit_fmt)
            outheader.append(padhead(value, width))
''', '''
        width = 0
        res = findpad_reg.match(col.outputformat)
        if padheader and res:
            width = int(res.group(1))
        if not np.iscomplexobj(col):
            headfmts = [floatfmt]
        elif imagfmt is None:
            headfmts = [realfmt]
        else:
            headfmts = [realfmt, imagfmt]
        for headfmt in headfmts:
            value = format_unit_header(headfmt % colname, col, unit_fmt)
            outheader.append(padhead(value, width))
''')
    ed(c, '''
    unit_fmt = "%s [%s]"
    nounitfmt = "%s"
    if col.unit and use_unit_fmt:
        return unit_fmt % (colname, col.unit)
    else:
        return nounitfmt % colname
''', '''
    if not (use_unit_fmt and col.unit):
        return "%s" % colname
    return "%s [%s]" % (colname, col.unit)
''')
    ed(c, '''
    if ismatrix(d):
        dimsnames = [x.name for x in d.dims[:-2]]
    else:
        dimsnames = [x.name for x in d.dims]
    dimsdata''', '''
    dims = d.dims[:-2] if ismatrix(d) else d.dims
    dimsnames = list(get_dims_names(*dims))
    dimsdata''')
    ed(c, '''
    if first:
        if data.comments:
            comments = data.comments.copy()
            comments.property.clear()
        else:
            comments = Comments()
    else:
        comments = Comments()
    for enum''', '''
    comments = Comments()
    if first and data.comments:
        comments = data.comments.copy()
        comments.property.clear()
    for enum''')
    ed(c, '''
    dbs = []
    if tuple() in datablock:
        dbs.append(datablock.pop(tuple()))
    for v in datablock.values():
        dbs.append(v)
''', '''
    dbs = []
    if () in datablock:
        dbs = [datablock.pop(())]
    dbs.extend(datablock.values())
''')
    ed(c, '''
            if first:
                first = False
            else:
                yield []
            for rad in fmt_block_generator(*block_content):
                yield rad
''', '''
            if not first:
                yield []
            first = False
            for rad in fmt_block_generator(*block_content):
                yield rad
''')
    ed(c, '''
        if ismatrix(indb.vardata[vname]):
            dimsnames = get_dims_names(*indb[vname].dims)[:-2]
            names = get_dims_names(*indb[vname].dims)[-2:]
            used_ivars = used_ivars.union(names)
        else:
            dimsnames = get_dims_names(*indb[vname].dims)
''', '''
        dimsnames = get_dims_names(*indb[vname].dims)
        if ismatrix(indb.vardata[vname]):
            used_ivars.update(dimsnames[-2:])
            dimsnames = dimsnames[:-2]
''')
    # -- spdata --------------------------------------------------------------
    s = FF + "spdata.py"
    ed(s, '''
            if not rad:  # skip empty lines
                continue
            elif rad.startswith("!Fullcomments"):
                continue
            elif rad.startswith("!"):  # Comment line with information
                yield Token("Comment", lineno, rad[1:])
            elif reg_header.match(rad[0]):
                yield Token("Header", lineno, rad)
            else:
                yield Token("Data", lineno, rad)
''', '''
            if not rad or rad.startswith("!Fullcomments"):
                continue
            if rad[0] == "!":
                yield Token("Comment", lineno, rad[1:])
                continue
            kind = "Header" if reg_header.match(rad) else "Data"
            yield Token(kind, lineno, rad)
''')
    ed(s, '''
        for radidx, rad in enumerate(stream):
            rad = rad.strip()
            lineno = radidx + 1
''', '''
        for lineno, rad in enumerate(stream, 1):
            rad = rad.strip()
''')
    ed(s, '''
            if token == "Header":
                header.append(rad)
                try:
                    token, lineno, rad = next(stream)
                except StopIteration:
                    raise SPDataIOError("File can not end in header")
            else:
                raise SPDataIOError("Missing header")
''', '''
            if token != "Header":
                raise SPDataIOError("Missing header")
            header.append(rad)
            try:
                token, lineno, rad = next(stream)
            except StopIteration:
                raise SPDataIOError("File can not end in header")
''')
    ed(s, '''
            if any(Nhead != len(row) for row in data):
                msg = "Different number of header variables "\\
                      "from data columns"
                raise SPDataIOError(msg)
''', '''
            for row in data:
                if len(row) != Nhead:
                    raise SPDataIOError("Different number of header "
                                        "variables from data columns")
''')
    ed(s, '''
            for varname in output:
                data = output[varname]
                if len(data) > 1:
                    output[varname] = np.array(output[varname],
                                               order="F").T
                else:
                    output[varname] = np.array(output[varname][0])

            freq = DimSweep(header[0].strip(), output[header[0].strip()])
            db[header[0].strip()] = freq
            for x in output.keys()[1:]:
                if output[x].ndim == 1:
                    db[x] = hfarray(output[x], dims=(freq,))
                else:
                    repdim = DimRep("rep", output[x].shape[1])
                    db[x] = hfarray(output[x],
                                    dims=(freq, repdim)).squeeze()
''', '''
            for varname in output:
                columns = output[varname]
                if len(columns) > 1:
                    output[varname] = np.array(columns, order="F").T
                else:
                    output[varname] = np.array(columns[0])

            sweepname = header[0].strip()
            freq = DimSweep(sweepname, output[sweepname])
            db[sweepname] = freq
            for x in output.keys()[1:]:
                values = output[x]
                if values.ndim == 1:
                    db[x] = hfarray(values, dims=(freq,))
                    continue
                repdim = DimRep("rep", values.shape[1])
                db[x] = hfarray(values, dims=(freq, repdim)).squeeze()
''')
    ed(s, '''
            remove = []
            for vname in db.comments.property:
                if vname[:1] == "@":
                    unit = db.comments.property[vname].unit
                    data = [float(db.comments.property[vname])]
                    db[vname[1:]] = DimPartial(vname[1:], data=data, unit=unit)
                    remove.append(vname)
            for v in remove:
                del db.comments.property[v]
''', '''
            prop = db.comments.property
            for vname in list(prop):
                if not vname.startswith("@"):
                    continue
                value = prop.pop(vname)
                name = vname[1:]
                db[name] = DimPartial(name, data=[float(value)],
                                      unit=value.unit)
''')
    ed(s, '''
    fmts = [x.outputformat for x in columns]
    for row in zip(*columns):
        out = []
        for elem, fmt in zip(row, fmts):
            out.extend(format_elem(fmt, elem))
        yield out
''', '''
    fmts = [col.outputformat for col in columns]
    for row in zip(*columns):
        yield [text for fmt, elem in zip(fmts, row)
               for text in format_elem(fmt, elem)]
''')
    ed(s, '''
    for comment in comments.fullcomments:
        yield ["!" + comment.lstrip("!")]
    for iname, fmt, value in sweepvars:
        yield [("!@%s=" + fmt) % (iname, value)]
''', '''
    for comment in comments.fullcomments:
        yield ["!%s" % comment.lstrip("!")]
    for iname, fmt, value in sweepvars:
        yield ["!@%s=%s" % (iname, fmt % value)]
''')
    # -- config --------------------------------------------------------------
    g = FF + "config.py"
    ed(g, '''
    if res:
        num, _, fullunit, exp, unit = res.groups()
        if exp is None:
            exp = ""
        return float(num) * siprefixes[exp], unit
    else:
        return value, None
''', '''
    if not res:
        return value, None
    num, _, fullunit, exp, unit = res.groups()
    return siprefixes[exp or ""] * float(num), unit
''')
    ed(g, '''
    try:
        parent = dct.parent
    except AttributeError:
        return None
    if isinstance(parent, dict):
        return parent
    else:
        return find_next_dict(parent)
''', '''
    while True:
        try:
            dct = dct.parent
        except AttributeError:
            return None
        if isinstance(dct, dict):
            return dct
''')
    ed(g, '''
        if OrderedDict.__contains__(self, key):
            return True
        dct = find_next_dict(self)
        return dct is not None and key in dct
''', '''
        if OrderedDict.__contains__(self, key):
            return True
        outer = find_next_dict(self)
        if outer is None:
            return False
        return key in outer
''')
    ed(g, '''
        if OrderedDict.__contains__(self, key):
            return OrderedDict.__getitem__(self, key)
        elif ((not OrderedDict.__contains__(self, key)) and
              (self.parent is not None)):
            dct = find_next_dict(self)
            if dct is None:
                raise KeyError("%r not in dictionary" % key)
            else:
                return dct[key]
        else:
            raise KeyError("%r not in dictionary" % key)
''', '''
        if OrderedDict.__contains__(self, key):
            return OrderedDict.__getitem__(self, key)
        outer = find_next_dict(self)
        if outer is None:
            raise KeyError("%r not in dictionary" % key)
        return outer[key]
''')
    ed(g, '''
        out = []
        for v in self:
            if hasattr(v, "convert_to_standard"):
                out.append(v.convert_to_standard())
            else:
                out.append(v)
        return out
''', '''
        return [v.convert_to_standard()
                if hasattr(v, "convert_to_standard") else v
                for v in self]
''')
    ed(g, '''
        out = dict()
        for k, v in self.items():
            if hasattr(v, "convert_to_standard"):
                out[k] = v.convert_to_standard()
            else:
                out[k] = v
        return out
''', '''
        out = {}
        for k, v in self.items():
            convert = getattr(v, "convert_to_standard", None)
            out[k] = v if convert is None else convert()
        return out
''')
    ed(g, '''
        for dct in self.dicts:
            if key in dct:
                return True
        if self.parent:
            return key in self.parent
        return False
''', '''
        if any(key in dct for dct in self.dicts):
            return True
        return bool(self.parent) and key in self.parent
''')
    ed(g, '''
    tremain = data.total_seconds()
    days = tremain // (3600 * 24)
    tremain = tremain - days * 3600 * 24
    hours = tremain // (3600)
    tremain = tremain - hours * 3600
    minutes = tremain // 60
    tremain = tremain - minutes * 60
    seconds = tremain
''', '''
    days, tremain = divmod(data.total_seconds(), 24 * 3600)
    hours, tremain = divmod(tremain, 3600)
    minutes, seconds = divmod(tremain, 60)
''')
    ed(g, '''
    if kind == "%":
        return float(v) * 0.01
    elif kind == "ppm":
        return float(v) * 1e-6
    elif kind == "ppb":
        return float(v) * 1e-9
    else:  # pragma: no cover
        raise ValueError("Not a valid percent, ppm, ppb kind %r" % kind)
''', '''
    scale = {"%": 0.01, "ppm": 1e-6, "ppb": 1e-9}
    if kind not in scale:  # pragma: no cover
        raise ValueError("Not a valid percent, ppm, ppb kind %r" % kind)
    return float(v) * scale[kind]
''')
    ed(g, '''
    days = 0 if days is None else float(days)
    hours = 0 if hours is None else float(hours)
    minutes = 0 if minutes is None else float(minutes)
    seconds = 0 if seconds is None else float(seconds)

    return datetime.timedelta(days=days,
                              hours=hours,
                              minutes=minutes,
                              seconds=seconds)
''', '''
    def number(text):
        return 0 if text is None else float(text)

    return datetime.timedelta(seconds=number(seconds),
                              minutes=number(minutes),
                              hours=number(hours),
                              days=number(days))
''')
    ed(g, '''
    h, m, _, s = res.groups()
    if s is None:
        s = 0
    t = datetime.time(int(h), int(m), int(s))
    dnow = datetime.datetime.today()
    d2 = datetime.datetime.combine(dnow, t)
    if d2 < dnow:
        d2 = d2 + datetime.timedelta(days=1)
    return d2
''', '''
    h, m, _, s = res.groups()
    t = datetime.time(int(h), int(m), int(s or 0))
    dnow = datetime.datetime.today()
    d2 = datetime.datetime.combine(dnow, t)
    if dnow > d2:
        d2 += datetime.timedelta(days=1)
    return d2
''')
    ed(g, '''
    res = regtime.match(value)
    if res:
        return time_constructor(loader, node)
    else:
        return loader.construct_yaml_int(node)
''', '''
    if regtime.match(value) is None:
        return loader.construct_yaml_int(node)
    return time_constructor(loader, node)
''')
    ed(g, '''
        out = LexicalScopeList()
        for child in node.value:
            value = self.construct_object(child, deep=deep)
            if isinstance(value, (LexicalScopeDict, LexicalScopeList)):
                value.parent = out
            out.append(value)
        return out
''', '''
        out = LexicalScopeList()
        out.extend(self.construct_object(child, deep=deep)
                   for child in node.value)
        for value in out:
            if isinstance(value, (LexicalScopeDict, LexicalScopeList)):
                value.parent = out
        return out
''')
    # -- utils ---------------------------------------------------------------
    u = "hftools/utils.py"
    ed(u, '''
    if highres:
        return datetime.datetime.now().strftime("%Y%m%dT%H%M%S.%f")[:-3]
    else:
        return datetime.datetime.now().strftime("%Y%m%dT%H%M%S")
''', '''
    now = datetime.datetime.now()
    if not highres:
        return now.strftime("%Y%m%dT%H%M%S")
    return now.strftime("%Y%m%dT%H%M%S.%f")[:-3]
''')
    ed(u, '''
    if isinstance(a, np.ndarray):
        return np.issubdtype(a.dtype, np.number)
    else:
        return np.issubdtype(np.array(a).dtype, np.number)
''', '''
    if not isinstance(a, np.ndarray):
        a = np.array(a)
    return np.issubdtype(a.dtype, np.number)
''')
    ed(u, '''
    if isinstance(a, np.ndarray):
        return a.dtype.kind == "i"
    else:
        return isinstance(a, int)
''', '''
    if not isinstance(a, np.ndarray):
        return isinstance(a, int)
    return a.dtype.kind in ("i",)
''')
    ed(u, '''
    if hasattr(data, "flat"):
        return sorted(set(data.flat))
    else:
        return sorted(set(data))
''', '''
    items = data.flat if hasattr(data, "flat") else data
    unique = list(set(items))
    unique.sort()
    return unique
''')
    ed(u, '''
    x = np.asanyarray(x)
    out = np.array(x)
    x = abs(x)
    out[(x < atol) | (x < (rtol * x.max()))] = 0
    return out
''', '''
    x = np.asanyarray(x)
    out = np.array(x)
    size = abs(x)
    small = (size < size.max() * rtol) | (size < atol)
    out[small] = 0
    return out
''')
    ed(u, '''
    ordered = sorted(list(map(split_num, lista)))
    return [orig for _, orig in ordered]
''', '''
    ordered = [split_num(name) for name in lista]
    ordered.sort()
    return [pair[1] for pair in ordered]
''')
    ed(u, '''
    nylista = []
    for x in lista:
        if type(x) in (list, tuple):
            nylista += flatten(x)
        else:
            nylista += [x]
    return nylista
''', '''
    nylista = []
    for x in lista:
        if type(x) is list or type(x) is tuple:
            nylista.extend(flatten(x))
        else:
            nylista.append(x)
    return nylista
''')
    # -- si units ------------------------------------------------------------
    i = CO + "si_units.py"
    ed(i, '''
    unit = unit.strip()
    if len(unit) == 1:
        if unit == "%":
            return .01, None
        if unit == "#":
            return 1, None
        else:
            return 1, unit
    elif len(unit) >= 2 and unit[0] in siprefixes:
        if unit[1:] in siunit_names:
            return siprefixes[unit[0]], unit[1:]
        else:
            return 1, unit
    else:
        return 1, unit
''', '''
    unit = unit.strip()
    if unit == "%":
        return .01, None
    if unit == "#":
        return 1, None
    if len(unit) > 1:
        prefix, base = unit[0], unit[1:]
        if prefix in siprefixes and base in siunit_names:
            return siprefixes[prefix], base
    return 1, unit
''')
    ed(i, '''
    if unit is None:
        return hftools.dataset.hfarray(value, unit=None)
    unit = unit.strip()
    if unit:
        mul, unit = unit_to_multiplier(unit)
    else:
        mul = 1
        unit = None
    return hftools.dataset.hfarray(to_numeric(value, error=True) * mul,
                                   unit=unit)
''', '''
    if unit is None:
        return hftools.dataset.hfarray(value, unit=None)
    mul, baseunit = 1, None
    stripped = unit.strip()
    if stripped:
        mul, baseunit = unit_to_multiplier(stripped)
    number = to_numeric(value, error=True)
    return hftools.dataset.hfarray(mul * number, unit=baseunit)
''')
    ed(i, '''
    m, e = mantissa(value)
    mul = e % 3
    if (e >= 0 and e < 3):
        return m * 10 ** mul, 0
    return (value * 10 ** -(e - mul), e - mul)
''', '''
    m, e = mantissa(value)
    mul = e % 3
    if 0 <= e < 3:
        return m * 10 ** mul, 0
    exp = e - mul
    return value * 10 ** -exp, exp
''')
    ed(i, '''
        num, exp = _help_format_sci(number, digs)
        if digs is None:
            pass
        else:
            numfmt = "%%.%df" % digs
            num = numfmt % num
        if greek:
            prefix = si_exp_to_prefixes_greek[exp]
        else:
            prefix = si_exp_to_prefixes[exp]
    prefixedunit = "%s%s" % (prefix, unit)
    return fmt % dict(num=num, unit=prefixedunit)
''', '''
        num, exp = _help_format_sci(number, digs)
        if digs is not None:
            num = ("%%.%df" % digs) % num
        table = si_exp_to_prefixes_greek if greek else si_exp_to_prefixes
        prefix = table[exp]
    return fmt % {"num": num, "unit": "%s%s" % (prefix, unit)}
''')
    # -- hdf5 v_01 -----------------------------------------------------------
    h = FF + "hdf5/v_01.py"
    ed(h, '''
    if db.blockname is None:
        blockname = "None"
    else:
        blockname = db.blockname
    grp.attrs["Blockname"] = blockname
''', '''
    grp.attrs["Blockname"] = ("None" if db.blockname is None
                              else db.blockname)
''')
    ed(h, '''
        datadtype = ""
        data = hfarray(db.ivardata[k])
        if data.dtype.name.startswith("datetime64"):
            datadtype = data.dtype.name
            data = data.astype(np.uint64)
        dset = ivardata.create_dataset(k, data=data, compression=compression)
        klass, name, unit = unpack_dim(db.ivardata[k])
        dset.attrs[r"info\\class"] = klass
        dset.attrs[r"info\\unit"] = cast_bytes(unit if unit is not None else "None")
        dset.attrs[r"info\\dtype"] = datadtype
''', '''
        dim = db.ivardata[k]
        data = hfarray(dim)
        dtypename = data.dtype.name
        isdate = dtypename.startswith("datetime64")
        if isdate:
            data = data.astype(np.uint64)
        dset = ivardata.create_dataset(k, data=data, compression=compression)
        klass, _, unit = unpack_dim(dim)
        dset.attrs[r"info\\class"] = klass
        if unit is None:
            unit = "None"
        dset.attrs[r"info\\unit"] = cast_bytes(unit)
        dset.attrs[r"info\\dtype"] = dtypename if isdate else ""
''')
    ed(h, '''
    if "fullcomments" in comments and len(comments["fullcomments"]):
        db.comments = Comments([cast_unicode(x).strip() for x in np.array(comments["fullcomments"])])
    else:
        db.comments = Comments()
''', '''
    lines = []
    if "fullcomments" in comments and len(comments["fullcomments"]):
        for line in np.array(comments["fullcomments"]):
            lines.append(cast_unicode(line).strip())
    db.comments = Comments(lines)
''')
    ed(h, '''
        unit = cast_unicode(v.attrs.get(r"data\\unit", "none"))
        if unit.lower() == "none":
            unit = None
        db[k] = hfarray(np.array(v), dtype=datadtype, dims=dims, unit=unit)
''', '''
        unit = cast_unicode(v.attrs.get(r"data\\unit", "none"))
        unit = None if unit.lower() == "none" else unit
        array = np.array(v)
        db[k] = hfarray(array, dtype=datadtype, dims=dims, unit=unit)
''')
    ed(FF + "hdf5/hdf5.py", '''
            version = cast_unicode(fil.attrs.get("hftools file version", ""))
            if version == "0.2":
                return v_02.read_hdf5(fil, name=name, **kw)
            else:
                return v_01.read_hdf5(fil, name=name, **kw)
''', '''
            version = cast_unicode(fil.attrs.get("hftools file version", ""))
            module = v_02 if version == "0.2" else v_01
            return module.read_hdf5(fil, name=name, **kw)
''')
    ed(FF + "hdf5/hdf5.py", '''
        if version == "0.2":
            func = v_02.save_hdf5
        else:
            func = v_01.save_hdf5
        with hdf5context(filename, mode="w") as fil:
            func(db, fil, version=version, **kw)
''', '''
        with hdf5context(filename, mode="w") as fil:
            if version == "0.2":
                v_02.save_hdf5(db, fil, version=version, **kw)
            else:
                v_01.save_hdf5(db, fil, version=version, **kw)
''')
    # -- noise ---------------------------------------------------------------
    n = NW + "noise.py"
    ed(n, '''
    if isinstance(twoport, YArray):
        C = 2 * k * Tamb * (twoport + Hconj(twoport))
    elif isinstance(twoport, ZArray):
        C = 2 * k * Tamb * (twoport + Hconj(twoport))
    elif isinstance''', '''
    if isinstance(twoport, (YArray, ZArray)):
        C = 2 * k * Tamb * (twoport + Hconj(twoport))
    elif isinstance''')
    ed(n, '''
    order = list(range(len(A.shape)))
    order[i_idx], order[j_idx] = order[j_idx], order[i_idx]
    out = A.transpose(*order)
    dims = list(out.dims)
    dims[i_idx] = DimMatrix_i(dims[i_idx], name="i")
    dims[j_idx] = DimMatrix_j(dims[j_idx], name="j")
    out.dims = dims
    out2 = out.conj()
    return out2
''', '''
    order = list(range(len(A.shape)))
    order[i_idx] = j_idx
    order[j_idx] = i_idx
    out = A.transpose(*order)
    dims = list(out.dims)
    dims[j_idx] = DimMatrix_j(dims[j_idx], name="j")
    dims[i_idx] = DimMatrix_i(dims[i_idx], name="i")
    out.dims = dims
    return out.conj()
''')
    ed(n, '''
        N = dest(self.N)
        _, T_s2d, _ = convert(self.N.P, N.P, self.N)
        C = matrix_multiply(matrix_multiply(T_s2d, self.C), Hconj(T_s2d))
        C[..., 0, 0] = C[..., 0, 0].real
        C[..., 1, 1] = C[..., 1, 1].real
        if Tout:
            return NoisyTwoport(N, C), T_s2d
        else:
            return NoisyTwoport(N, C)
''', '''
        N = dest(self.N)
        T_s2d = self.T(dest)
        C = matrix_multiply(matrix_multiply(T_s2d, self.C), Hconj(T_s2d))
        for idx in (0, 1):
            C[..., idx, idx] = C[..., idx, idx].real
        noisy = NoisyTwoport(N, C)
        return (noisy, T_s2d) if Tout else noisy
''')
    ed(n, '''
            Rn = CA11.real / 2
            Yopt = (np.sqrt(CA22 / CA11 - (CA12.imag / CA11) ** 2) +
                    1j * (CA12.imag / CA11))
            Fmin = 1 + (CA12 + CA11 * Yopt.conj()).real
''', '''
            ratio = CA12.imag / CA11
            Rn = CA11.real / 2
            Yopt = np.sqrt(CA22 / CA11 - ratio ** 2) + 1j * ratio
            Fmin = (CA12 + CA11 * Yopt.conj()).real + 1
''')
    ed(DS + "helper.py", '''    return _varname_unit_guess_db.get(varname, None)
''', '''    if varname in _varname_unit_guess_db:
        return _varname_unit_guess_db[varname]
    return None
''')
    # -- dim -----------------------------------------------------------------
    d = DS + "dim.py"
    ed(d, '''
        if isinstance(Name, DimBase):
            dim_data = Name.data
            dim_name = Name.name
            dim_unit = Name.unit
            dim_outputformat = Name.outputformat
        else:
            dim_data = data
            dim_name = Name
            dim_unit = unit
            dim_outputformat = outputformat

        if data is not None:
            dim_data = data
        if unit is not None:
            dim_unit = unit
        if name is not None:
            dim_name = name
        if outputformat is not None:
            dim_outputformat = outputformat
''', '''
        if isinstance(Name, DimBase):
            dim_data = Name.data if data is None else data
            dim_name = Name.name
            dim_unit = Name.unit if unit is None else unit
            if outputformat is None:
                dim_outputformat = Name.outputformat
            else:
                dim_outputformat = outputformat
        else:
            dim_data = data
            dim_name = Name
            dim_unit = unit
            dim_outputformat = outputformat

        if name is not None:
            dim_name = name
''')
    ed(d, '''
        if len(self._data) == 0:
            d = np.array([])
        elif isinstance(self._data[0], (np.datetime64, datetime.datetime)):
            d = np.asarray(self._data, np.dtype("datetime64[us]"))
        else:
            d = np.asarray(self._data)
        return d
''', '''
        if not self._data:
            return np.array([])
        first = self._data[0]
        if isinstance(first, (datetime.datetime, np.datetime64)):
            return np.asarray(self._data, np.dtype("datetime64[us]"))
        return np.asarray(self._data)
''')
    ed(d, '''
        if self._outputformat is None:
            if is_integer(self._data[0]):
                return "%d"
            elif is_numlike(self._data[0]):
                return "%.16e"
            else:
                return "%s"
        return self._outputformat
''', '''
        if self._outputformat is not None:
            return self._outputformat
        first = self._data[0]
        if is_integer(first):
            return "%d"
        return "%.16e" if is_numlike(first) else "%s"
''')
    ed(d, '''
    for item in sequence:
        if isinstance(item, (list, tuple)):
            for subitem in flatten(item):
                yield subitem
        else:
            yield item
''', '''
    for item in sequence:
        if not isinstance(item, (list, tuple)):
            yield item
            continue
        for subitem in flatten(item):
            yield subitem
''')
    ed(d, '''
    for dim in reversed(dims):
        dims = (ComplexDerivAxis, ComplexIndepAxis, ComplexDiagAxis)
        if isinstance(dim, dims):
            return True
    return False
''', '''
    kinds = (ComplexDerivAxis, ComplexIndepAxis, ComplexDiagAxis)
    return any(isinstance(dim, kinds) for dim in dims)
''')
