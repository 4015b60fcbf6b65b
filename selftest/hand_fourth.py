"""A fourth batch of hand-written edits that keep the behaviour."""
FF = "hftools/file_formats/"
DS = "hftools/dataset/"
NW = "hftools/networks/"
PL = "hftools/plotting/"


def edits(ed):
    # -- smith ---------------------------------------------------------------
    ed(PL + "smith.py", '''
    if x1 is None or x2 is None:
        pass
    else:
        x1, x2 = min(x1, x2), max(x1, x2)
        z1 = complex(r, x1)
        z2 = complex(r, x2)
        c1 = z2gamma(z1)
        c2 = z2gamma(z2)
        c0 = complex(x0, y0)
        t1 = angle(c2 - c0, deg=True)
        t2 = angle(c1 - c0, deg=True)
    return MyCircle(x0, y0, radius, t1, t2)
''', '''
    if x1 is not None and x2 is not None:
        low, high = sorted((x1, x2))
        center = complex(x0, y0)
        t1 = angle(z2gamma(complex(r, high)) - center, deg=True)
        t2 = angle(z2gamma(complex(r, low)) - center, deg=True)
    return MyCircle(x0, y0, radius, t1, t2)
''')
    ed(PL + "smith.py", '''
    if np.isinf(abs(z)):
        if np.imag(z) >= 0:
            return 1 + 0j
        else:
            return 1 - 1e-15j
    else:
        return (z - 1) / (z + 1)
''', '''
    if not np.isinf(abs(z)):
        return (z - 1) / (z + 1)
    return 1 + 0j if np.imag(z) >= 0 else 1 - 1e-15j
''')
    ed(PL + "smith.py", '''
        kw = kw.copy()
        if "fc" not in kw:
            kw["fc"] = "none"
        if self.t1 is None or self.t2 is None:
            return plt.Circle((self.x, self.y), self.r, *k, **kw)
        else:
            pars = ((self.x, self.y),
                    self.flipx * 2 * self.r,
                    self.flipy * 2 * self.r,
                    0,
                    self.t1,
                    self.t2)
            return Arc(*(pars + k), **kw)
''', '''
        options = dict(kw)
        options.setdefault("fc", "none")
        center = (self.x, self.y)
        if None in (self.t1, self.t2):
            return plt.Circle(center, self.r, *k, **options)
        diameter = 2 * self.r
        pars = (center, self.flipx * diameter, self.flipy * diameter, 0,
                self.t1, self.t2) + k
        return Arc(*pars, **options)
''')
    ed(PL + "smith.py", '''
        kw = kw.copy()
        if "fc" in kw:
            del kw["fc"]
        return plt.Polygon(np.array([(self.x1, self.y1),
                                    (self.x2, self.y2)]), *k, **kw)
''', '''
        options = dict(kw)
        options.pop("fc", None)
        corners = np.array([(self.x1, self.y1), (self.x2, self.y2)])
        return plt.Polygon(corners, *k, **options)
''')
    # -- spar_functions ------------------------------------------------------
    ed(NW + "spar_functions.py", '''
    res[..., 0, 0] = S1[..., 0, 0] - S2[..., 0, 0] * s1det
    res[..., 0, 1] = S1[..., 0, 1] * S2[..., 0, 1]
    res[..., 1, 0] = S1[..., 1, 0] * S2[..., 1, 0]
    res[..., 1, 1] = S2[..., 1, 1] - S1[..., 1, 1] * s2det
    res = res / denom
    res = S1.__class__(res, dims=S1.dims)
    if rest:
        return cascadeS(res, *rest)
    return res
''', '''
    a11, a12 = S1[..., 0, 0], S1[..., 0, 1]
    a21, a22 = S1[..., 1, 0], S1[..., 1, 1]
    b11, b12 = S2[..., 0, 0], S2[..., 0, 1]
    b21, b22 = S2[..., 1, 0], S2[..., 1, 1]
    res[..., 0, 0] = a11 - s1det * b11
    res[..., 0, 1] = b12 * a12
    res[..., 1, 0] = b21 * a21
    res[..., 1, 1] = b22 - s2det * a22
    out = S1.__class__(res / denom, dims=S1.dims)
    return cascadeS(out, *rest) if rest else out
''')
    ed(NW + "spar_functions.py", '''
    res = X.__class__(np.zeros(maxshape, dtype), dims=X.dims)
    e11 = (X[..., 0, 0] - e[..., 0, 0])
    e12 = (X[..., 0, 1] * e[..., 1, 0])
    e21 = (X[..., 1, 0] * e[..., 0, 1])
    e22 = (-X[..., 0, 1] * X[..., 1, 0] * e[..., 1, 1])
    res[..., 0, 0] = e11
    res[..., 0, 1] = e12
    res[..., 1, 0] = e21
    res[..., 1, 1] = e22
    res = res / denom
''', '''
    res = klass(np.zeros(maxshape, dtype), dims=dims)
    res[..., 0, 0] = X[..., 0, 0] - e[..., 0, 0]
    res[..., 0, 1] = X[..., 0, 1] * e[..., 1, 0]
    res[..., 1, 0] = X[..., 1, 0] * e[..., 0, 1]
    res[..., 1, 1] = -(X[..., 0, 1] * X[..., 1, 0] * e[..., 1, 1])
    res = res / denom
''')
    ed(NW + "spar_functions.py", '''
    return deembedright(deembedleft(e1, S), e2)
''', '''
    without_left = deembedleft(e1, S)
    return deembedright(X=without_left, e=e2)
''')
    # -- mdif ----------------------------------------------------------------
    ed(FF + "mdif.py", '''
        if multiple_files and isinstance(filename, (list, tuple)):
            filenames = []
            for f in filename:
                filenames.extend(glob(f))
        elif multiple_files:
            filenames = glob(filename)
        else:
            filenames = [filename]
''', '''
        if not multiple_files:
            filenames = [filename]
        elif isinstance(filename, (list, tuple)):
            filenames = [name for pattern in filename
                         for name in glob(pattern)]
        else:
            filenames = glob(filename)
''')
    ed(FF + "mdif.py", '''
                for k, v in res.items():
                    if isinstance(v, list):
                        for a in v:
                            a["FILENAME"] = hfarray(fname)
                        objs.setdefault(k, []).extend(v)
                    else:
                        v["FILENAME"] = hfarray(fname)
                        objs.setdefault(k, []).append(v)
''', '''
                for k, v in res.items():
                    blocks = v if isinstance(v, list) else [v]
                    for block in blocks:
                        block["FILENAME"] = hfarray(fname)
                    objs.setdefault(k, []).extend(blocks)
''')
    ed(FF + "mdif.py", '''
        if blockname:
            if blockname in res:
                return res[blockname]
            else:
                msg = "%r not a block in mdif file %r" % (blockname, filename)
                raise MDIFError(msg)
        else:
            return res
''', '''
        if not blockname:
            return res
        if blockname not in res:
            raise MDIFError("%r not a block in mdif file %r" %
                            (blockname, filename))
        return res[blockname]
''')
    ed(FF + "mdif.py", '''
            elif line[:1] == "!":
                yield Token("COMMENT", lineno, line[1:].strip())
            elif line[:1] == "%":
                yield Token("HEADER", lineno, line[1:].strip())
            elif line[:1] == "#":
                yield Token("ATTRIB", lineno, line[1:].strip())
''', '''
            first, rest = line[:1], line[1:].strip()
            if first == "!":
                yield Token("COMMENT", lineno, rest)
            elif first == "%":
                yield Token("HEADER", lineno, rest)
            elif first == "#":
                yield Token("ATTRIB", lineno, rest)
''')
    ed(FF + "mdif.py", '''
        for matrix, value in matrices.items():
            a = [(i, j) for x, i, j, y in value]
            a.sort()
            arrays = []
            for i, j in a:
                vname = "%s[%s,%s]" % (matrix, i, j)
                arrays.append(np.array(db.vardata[vname])[:, np.newaxis])
            dims = db.vardata["%s[%s,%s]" % (matrix, i, j)].dims
''', '''
        for matrix, value in matrices.items():
            a = sorted((i, j) for x, i, j, y in value)
            arrays = []
            for i, j in a:
                column = db.vardata["%s[%s,%s]" % (matrix, i, j)]
                arrays.append(np.array(column)[:, np.newaxis])
            dims = column.dims
''')
    ed(FF + "mdif.py", '''
        varname, value = var
        varname, vartype = varname.split('(')
        vartype = vartype.strip(")")
        if varname.startswith("SWEEP."):
            varname = varname[len("sweep."):]
        if vartype == "real":
            value = float(value)
        else:
            raise Exception("%r not an implemented var type" % vartype)
        i = DimPartial(varname, np.array([value]))
        return i
''', '''
        name, text = var
        varname, vartype = name.split('(')
        vartype = vartype.strip(")")
        if varname.startswith("SWEEP."):
            varname = varname[6:]
        if vartype != "real":
            raise Exception("%r not an implemented var type" % vartype)
        return DimPartial(varname, np.array([float(text)]))
''')
    # -- merge ---------------------------------------------------------------
    ed(FF + "merge.py", '''
        unit.append(getattr(x, "unit", None))
        if prototype.ndim:
            result[(slice(None, None, None),) + idx] = x
        else:
            if x.ndim == 0:
                result[idx] = x.flatten()[0]
            else:
                result[idx] = x
    if len(set(unit)) == 1:
        unit = unit.pop()
    else:
        unit = None
''', '''
        unit.append(getattr(x, "unit", None))
        if prototype.ndim:
            result[(slice(None),) + idx] = x
        elif x.ndim == 0:
            result[idx] = x.flatten()[0]
        else:
            result[idx] = x
    unit = unit[0] if len(set(unit)) == 1 else None
''')
    ed(FF + "merge.py", '''
    ivars = {}
    for b in blocks:
        for vname, v in b.ivardata.items():
            if vname not in ivars:
                ivars[vname] = v
''', '''
    ivars = {}
    for block in blocks:
        for vname in block.ivardata:
            ivars.setdefault(vname, block.ivardata[vname])
''')
    ed(FF + "merge.py", '''
    for v in outdata.vardata.values():
        for k in v.dims:
            if k.name in outdata.ivardata:
                if ((isinstance(k, DimRep) and
                     not isinstance(outdata.ivardata[k.name], DimRep))):
                    outdata.replace_dim(outdata.ivardata[k.name], k)
''', '''
    for v in outdata.vardata.values():
        for dim in v.dims:
            if not isinstance(dim, DimRep) or dim.name not in outdata.ivardata:
                continue
            current = outdata.ivardata[dim.name]
            if not isinstance(current, DimRep):
                outdata.replace_dim(current, dim)
''')
    ed(FF + "merge.py", '''
    for i, int_i in zip(itertools.product(*[sorted(x) for x in uniq]),
                        itertools.product(*[range(len(x)) for x in uniq])):
        idx = indices.index(i)
        out.append((int_i, association_list[idx][1]))
    return names, list(map(sorted, uniq)), out
''', '''
    axes = [sorted(x) for x in uniq]
    positions = itertools.product(*[range(len(x)) for x in uniq])
    for coord, position in zip(itertools.product(*axes), positions):
        value = association_list[indices.index(coord)][1]
        out.append((position, value))
    return names, axes, out
''')
    # -- touchstone ----------------------------------------------------------
    ed(FF + "touchstone.py", '''
    if out.shape[1] == 1:
        out.shape = (out.shape[0], 1, 1)
    elif out.shape[1] == 4:
        out.shape = (out.shape[0], 2, 2)
        out = out.transpose(0, 2, 1)
    else:
        N = int(sqrt(out.shape[1]))
        out.shape = (out.shape[0], N, N)
''', '''
    nports = int(sqrt(out.shape[1]))
    out.shape = (out.shape[0], nports, nports)
    if nports == 2:
        out = out.transpose(0, 2, 1)
''')
    ed(FF + "touchstone.py", '''
    if fn is not None and len(f) == len(fn) and np.allclose(f, fn):
        noisedims = dims
    elif fn is None:
        noisedims = None
    else:
        noisedims = (DimSweep("freqn", fn, unit="Hz"), )
''', '''
    if fn is None:
        noisedims = None
    elif len(f) == len(fn) and np.allclose(f, fn):
        noisedims = dims
    else:
        noisedims = (DimSweep("freqn", fn, unit="Hz"), )
''')
    ed(FF + "touchstone.py", '''
        for row in zip(*columns):
            out = [fmts[0] % row[0]]
            # RI format, real matrices are also written as pairs
            for elem, fmt in zip(row[1:], fmts[1:]):
                out.append(fmt % elem.real)
                out.append(fmt % elem.imag)
            fil.write("\\t".join(out))
            fil.write("\\n")
''', '''
        for row in zip(*columns):
            out = [fmts[0] % row[0]]
            # RI format, real matrices are also written as pairs
            for elem, fmt in zip(row[1:], fmts[1:]):
                out.extend([fmt % elem.real, fmt % elem.imag])
            fil.write("\\t".join(out) + "\\n")
''')
    # -- math ----------------------------------------------------------------
    ed("hftools/math.py", '''
    idx0 = np.searchsorted(x[1:-1], xi)
    idx1 = idx0 + 1
    x0 = x[idx0]
    x1 = x[idx1]
    y0 = y[idx0]
    y1 = y[idx1]
    d0 = (xi - x0)
    d1 = (x1 - xi)
    d = (x1 - x0)
    return (d0 * y1 + d1 * y0) / d
''', '''
    lower = np.searchsorted(x[1:-1], xi)
    upper = 1 + lower
    x0, y0 = x[lower], y[lower]
    x1, y1 = x[upper], y[upper]
    return ((x1 - xi) * y0 + (xi - x0) * y1) / (x1 - x0)
''')
    ed("hftools/math.py", '''
    if xi.min() < x.min():
        raise ValueError("Can not interpolate below lowest value")
    elif xi.max() > x.max():
        raise ValueError("Can not interpolate below highest value")
    else:
        return linear_extrapolate(x, y, xi)
''', '''
    if x.min() > xi.min():
        raise ValueError("Can not interpolate below lowest value")
    if x.max() < xi.max():
        raise ValueError("Can not interpolate below highest value")
    return linear_extrapolate(x, y, xi)
''')
    ed("hftools/math.py", '''
    if aperture % 2 == 0:
        odd = 0
    else:
        odd = 1
    for i in range(data.shape[axis]):
        wid = min(i, aperture // 2, abs(len - i))
        if wid != 0:
            newdata[i] = np.mean(data[i - wid: i + wid + odd], axis)
        else:
            newdata[i] = data[i]
    return newdata
''', '''
    odd = aperture % 2
    for i in range(data.shape[axis]):
        wid = min(i, aperture // 2, abs(len - i))
        if not wid:
            newdata[i] = data[i]
            continue
        newdata[i] = np.mean(data[i - wid: i + wid + odd], axis)
    return newdata
''')
    ed("hftools/math.py", '''
    AA, bb = make_same_dims(A, b)
    x = np.linalg.solve(AA, bb)
    result = hfarray(x, dims=bb.dims)
    if squeeze:
        result = result.squeeze()
    return result
''', '''
    AA, bb = make_same_dims(A, b)
    solution = hfarray(linalg.solve(AA, bb), dims=bb.dims)
    return solution.squeeze() if squeeze else solution
''')
    ed("hftools/math.py", '''
    det = linalg.det
    result = det(A)
    result = hfarray(result, dims=A.dims[:-2])
    return result
''', '''
    return hfarray(linalg.det(A), dims=A.dims[:-2])
''')
    # -- citi ----------------------------------------------------------------
    ed(FF + "citi.py", '''
    elif typ == "RI":
        out = []
        for rad in data:
            r, i = rad.strip().split(",")
            out.append(float(r) + float(i) * 1j)
        return out
    elif typ == "MAGANGLE":
        out = []
        for rad in data:
            r, i = rad.strip().split(",")
            out.append(float(r) * np.exp(float(i) / 180 * pi * 1j))
        return out
    else:
        raise CITIFileError("Unknown Vartype %r" % (typ,))
''', '''
    if typ not in ("RI", "MAGANGLE"):
        raise CITIFileError("Unknown Vartype %r" % (typ,))
    out = []
    for rad in data:
        first, second = [float(part) for part in rad.split(",")]
        if typ == "RI":
            out.append(first + second * 1j)
        else:
            out.append(first * np.exp(1j * pi * second / 180))
    return out
''')
    ed(FF + "citi.py", '''
            if hftools.dataset.ismatrix(value):
                names = []
                for i in hfarray(value.dims[-2]):
                    for j in hfarray(value.dims[-1]):
                        names.append("%s%s%s" % (name, i + 1, j + 1))
            else:
                names = [name]
            for n in names:
                if iscomplexobj(value):
                    yield "DATA %s RI" % (n)
                else:
                    yield "DATA %s MAG" % (n)
''', '''
            names = [name]
            if hftools.dataset.ismatrix(value):
                names = ["%s%s%s" % (name, i + 1, j + 1)
                         for i in hfarray(value.dims[-2])
                         for j in hfarray(value.dims[-1])]
            kind = "RI" if iscomplexobj(value) else "MAG"
            for n in names:
                yield "DATA %s %s" % (n, kind)
''')
    ed(FF + "citi.py", '''
            for val in values:
                yield "BEGIN"
                if iscomplexobj(val):
                    fmt = "%s,%s" % (val.outputformat, val.outputformat)
                    for rad in val.flat:
                        yield fmt % (rad.real, rad.imag)
                else:
                    fmt = val.outputformat
                    for rad in val.flat:
                        yield fmt % rad
                yield "END"
''', '''
            for val in values:
                yield "BEGIN"
                fmt = val.outputformat
                if iscomplexobj(val):
                    pair = fmt + "," + fmt
                    for number in val.flat:
                        yield pair % (number.real, number.imag)
                else:
                    for number in val.flat:
                        yield fmt % number
                yield "END"
''')
