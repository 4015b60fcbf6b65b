"""Hand-written edits that keep the behaviour: the checks have to stay quiet.

    hand.py [-c C01,C02]     each edit alone, checks over it
    hand.py --apply DIR      all edits on a copy (to run its tests)
"""
import os
import re
import sys

FF = "hftools/file_formats/"
DS = "hftools/dataset/"
E = []


def ed(f, old, new):
    E.append((f, old.strip("\n"), new.strip("\n")))


# -- mdif --------------------------------------------------------------------
ed(FF + "mdif.py", '''
    def get_real(self, stream):
        d = stream.pop(0)
        d = d.strip('"')
        d = float(d)
        return d
''', '''
    def get_real(self, stream):
        return float(stream.pop(0).strip('"'))
''')
ed(FF + "mdif.py", '''
        dr = self.get_real(stream)
        di = self.get_real(stream)
        d = dr + 1j * di
        return d
''', '''
        real_part = self.get_real(stream)
        imag_part = self.get_real(stream)
        return real_part + 1j * imag_part
''')
ed(FF + "mdif.py", '''
        while True:
            for lineparser in self.parse_stream:
                linedata = datastream.pop(0).split()
                for func, varname in lineparser:
                    vardata.setdefault(varname, []).append(func(linedata))
                if linedata:
                    msg = "More values than variables in header: %r"
                    raise MDIFError(msg % (linedata,))
            if not datastream:
                break
        return vardata
''', '''
        more = True
        while more:
            for lineparser in self.parse_stream:
                self._parse_line(lineparser, datastream.pop(0).split(),
                                 vardata)
            more = bool(datastream)
        return vardata

    def _parse_line(self, lineparser, linedata, vardata):
        for func, varname in lineparser:
            vardata.setdefault(varname, []).append(func(linedata))
        if linedata:
            raise MDIFError("More values than variables in header: %r"
                            % (linedata,))
''')
ed(FF + "mdif.py", '''
        res = reg.match(head)
        if res:
            var, vtype = res.groups()
            typefunc = {"string": self.get_string,
                        "complex": self.get_complex,
                        "real": self.get_real,
                        "integer": self.get_integer}[vtype]
        else:
            raise Exception("Unknown datatype in header %r" % head)
        return typefunc, var
''', '''
        match = reg.match(head)
        if not match:
            raise Exception("Unknown datatype in header %r" % head)
        var, vtype = match.groups()
        converters = dict(string=self.get_string,
                          complex=self.get_complex,
                          real=self.get_real,
                          integer=self.get_integer)
        return converters[vtype], var
''')
ed(FF + "mdif.py", '''
        for idx, fname in enumerate(filenames):
            with open(fname) as fil:
                res = obj.do_file(fil)
                for k, v in res.items():
                    if isinstance(v, list):
                        for a in v:
                            a["FILENAME"] = hfarray(fname)
                        objs.setdefault(k, []).extend(v)
                    else:
                        v["FILENAME"] = hfarray(fname)
                        objs.setdefault(k, []).append(v)
''', '''
        for fname in filenames:
            with open(fname) as fil:
                res = obj.do_file(fil)
                for k, v in res.items():
                    blocks = v if isinstance(v, list) else [v]
                    for block in blocks:
                        block["FILENAME"] = hfarray(fname)
                    objs.setdefault(k, []).extend(blocks)
''')
ed(FF + "mdif.py", '''
        if blockname:
            if blockname in res:
                return res[blockname]
            else:
                msg = "%r not a block in mdif file %r" % (blockname, filename)
                raise MDIFError(msg)
        else:
            return res
''', '''
        if not blockname:
            return res
        if blockname not in res:
            raise MDIFError("%r not a block in mdif file %r"
                            % (blockname, filename))
        return res[blockname]
''')
ed(FF + "mdif.py", '''
        for idx, line in enumerate(stream):
            lineno = idx + 1
            if self.verbose:
                print("\\r               \\r", lineno, end="")
            line = line.lstrip()
            if not line:
                continue
            elif line[:1] == "!":
                yield Token("COMMENT", lineno, line[1:].strip())
            elif line[:1] == "%":
                yield Token("HEADER", lineno, line[1:].strip())
            elif line[:1] == "#":
                yield Token("ATTRIB", lineno, line[1:].strip())
''', '''
        prefixes = {"!": "COMMENT", "%": "HEADER", "#": "ATTRIB"}
        for lineno, line in enumerate(stream, 1):
            if self.verbose:
                print("\\r               \\r", lineno, end="")
            line = line.lstrip()
            if not line:
                continue
            elif line[:1] in prefixes:
                yield Token(prefixes[line[:1]], lineno, line[1:].strip())
''')
ed(FF + "mdif.py", '''
            out = (comments, var, blockname, header, attribs, data)
            yield out
''', '''
            yield comments, var, blockname, header, attribs, data
''')
ed(FF + "mdif.py", '''
            dd = self.proc_data(header, data[:])
            for vname in dd:
                db[vname] = dd[vname]
            for var in vars:
                vi = self.proc_var(var)
                db[vi.name] = vi
            for var in attribs:
                name, value = self.proc_attrib(var)
                db[name] = value
''', '''
            columns = self.proc_data(header, list(data))
            for vname, column in columns.items():
                db[vname] = column
            for partial in [self.proc_var(var) for var in vars]:
                db[partial.name] = partial
            for attrib in attribs:
                attrib_name, attrib_value = self.proc_attrib(attrib)
                db[attrib_name] = attrib_value
''')
ed(FF + "mdif.py", '''
        if vartype == "real":
            value = float(value)
        else:
            raise Exception("%r not an implemented var type" % vartype)
        return varname, hfarray(value)
''', '''
        if vartype != "real":
            raise Exception("%r not an implemented var type" % vartype)
        return varname, hfarray(float(value))
''')
ed(FF + "mdif.py", '''
        oldsweepname = processor.sweep_name()
        sweepname = processor.sweep_name()
        if sweepname.lower().startswith("sweep."):
            sweepname = sweepname[len("sweep."):]

        fi = DimSweep(sweepname, vardata[oldsweepname])
        del vardata[oldsweepname]
        for vname in vardata:
            vardata[vname] = hfarray(vardata[vname], (fi,))
        return vardata
''', '''
        sweepname = processor.sweep_name()
        sweepdata = vardata.pop(sweepname)
        prefix = "sweep."
        if sweepname.lower().startswith(prefix):
            sweepname = sweepname[len(prefix):]

        fi = DimSweep(sweepname, sweepdata)
        for vname in vardata:
            vardata[vname] = hfarray(vardata[vname], dims=(fi,))
        return vardata
''')
ed(FF + "mdif.py", '''
        if self.merge:
            block_groups = {}
            for block in blocks:
                block_groups.setdefault(block.blockname, []).append(block)
            out = {}
            for bname in block_groups:
                out[bname] = simple_merge_blocks(block_groups[bname])
                out[bname].blockname = bname
        else:
            out = {}
            for block in blocks:
                out.setdefault(block.blockname, []).append(block)
        return out
''', '''
        block_groups = {}
        for block in blocks:
            block_groups.setdefault(block.blockname, []).append(block)
        if not self.merge:
            return block_groups
        out = {}
        for bname, group in block_groups.items():
            merged = simple_merge_blocks(group)
            merged.blockname = bname
            out[bname] = merged
        return out
''')
ed(FF + "mdif.py", '''
    if ((len(I) * len(J) == len(lista) and
         I == set(range(1, len(I) + 1)) and
         J == set(range(1, len(J) + 1)))):
        return True
    else:
        return False
    return a
''', '''
    complete = len(I) * len(J) == len(lista)
    return (complete and
            I == set(range(1, len(I) + 1)) and
            J == set(range(1, len(J) + 1)))
''')
ed(FF + "mdif.py", '''
    c = []
    for b in blocks:
        if b.comments is not None:
            c.extend(b.comments.fullcomments)
    out.comments = Comments()
    out.comments.fullcomments = c
    return out
''', '''
    comments = Comments()
    comments.fullcomments = [line for b in blocks if b.comments is not None
                             for line in b.comments.fullcomments]
    out.comments = comments
    return out
''')
ed(FF + "mdif.py", '''
    for key in list(matrix.keys()):
        value = matrix[key]
        if is_matrix_name(matrix[key]):
            pass
        else:
            for (offset, i, j, vtype) in value:
                scalar.append((key, offset, vtype))
            del matrix[key]
''', '''
    for key in list(matrix.keys()):
        value = matrix[key]
        if not is_matrix_name(value):
            scalar.extend((key, offset, vtype)
                          for (offset, i, j, vtype) in value)
            del matrix[key]
''')
ed(FF + "mdif.py", '''
    a = [i for x, i, y in lista]
    I = set(a)
    proper_indices = set(range(1, len(a) + 1))
    return I == proper_indices
''', '''
    indices = [i for x, i, y in lista]
    return set(indices) == set(range(1, len(indices) + 1))
''')
ed(FF + "mdif.py", '''
        blockname = db.blockname
        if blockname is None:
            blockname = "DATABLOCK"
        yield ["BEGIN %s" % blockname]
''', '''
        blockname = "DATABLOCK" if db.blockname is None else db.blockname
        yield ["BEGIN %s" % blockname]
''')
ed(FF + "mdif.py", '''
        for rad in loop_db(convert_matrices_to_elements(db)):
            fil.write("\\t".join(rad))
            fil.write("\\n")
''', '''
        elements = convert_matrices_to_elements(db)
        for rad in loop_db(elements):
            fil.write("\\t".join(rad) + "\\n")
''')
ed(FF + "mdif.py", '''
    for dims, subset in yield_dim_consistent_datablocks(db):
        if not dims:
            continue
        for rad in fmt_mdif_block(dims, subset):
            yield rad
''', '''
    for dims, subset in yield_dim_consistent_datablocks(db):
        if dims:
            for rad in fmt_mdif_block(dims, subset):
                yield rad
''')
# -- merge -------------------------------------------------------------------
ed(FF + "merge.py", '''
        coord = []
        for name, dim in b.ivardata.items():
            if isinstance(dim, DimPartial):
                coord.append((name, array(dim.data)[0]))
        coord.sort()
        coord = tuple(coord)
        coords.append(coord)
        for v in b.vardata.keys():
            data.setdefault(v, []).append((coord, b.vardata[v]))
    return data
''', '''
        coord = tuple(sorted((name, array(dim.data)[0])
                             for name, dim in b.ivardata.items()
                             if isinstance(dim, DimPartial)))
        for v in b.vardata.keys():
            data.setdefault(v, []).append((coord, b.vardata[v]))
    return data
''')
ed(FF + "merge.py", '''
    if len(set(unit)) == 1:
        unit = unit.pop()
    else:
        unit = None
    v = hfarray(result,
''', '''
    unit = unit[0] if len(set(unit)) == 1 else None
    v = hfarray(result,
''')
ed(FF + "merge.py", '''
        if prototype.ndim:
            result[(slice(None, None, None),) + idx] = x
        else:
            if x.ndim == 0:
                result[idx] = x.flatten()[0]
            else:
                result[idx] = x
''', '''
        if prototype.ndim:
            result[(slice(None),) + idx] = x
        elif x.ndim == 0:
            result[idx] = x.flatten()[0]
        else:
            result[idx] = x
''')
ed(FF + "merge.py", '''
    ivars = {}
    for b in blocks:
        for vname, v in b.ivardata.items():
            if vname not in ivars:
                ivars[vname] = v
''', '''
    ivars = {}
    for b in blocks:
        for vname, v in b.ivardata.items():
            ivars.setdefault(vname, v)
''')
ed(FF + "merge.py", '''
    partials = {}
    for k, v in db.ivardata.items():
        if isinstance(v, DimPartial):
            partials.setdefault(k, []).append(v)
    return partials
''', '''
    return dict((k, [v]) for k, v in db.ivardata.items()
                if isinstance(v, DimPartial))
''')
ed(FF + "merge.py", '''
    if hyper:
        for vnames in dimpartialgroups.keys():
            if vnames:
                hyperindex = db[vnames[0]].dims[0]
                db = db.hyper(vnames, hyperindex, all=True)
    db = db.squeeze()
    return db
''', '''
    if hyper:
        for vnames in dimpartialgroups:
            if not vnames:
                continue
            db = db.hyper(vnames, db[vnames[0]].dims[0], all=True)
    return db.squeeze()
''')
ed(FF + "merge.py", '''
    cmt = Comments()
    for block in blocks:
        if block.comments:
            cmt.extend(block.comments)
    db.comments = cmt
    db.blockname = blocks[0].blockname

    if hyper:
''', '''
    db.comments = _joined_comments(blocks)
    db.blockname = blocks[0].blockname

    if hyper:
''')
E[-1] = E[-1] + (('''
def get_partials(db):
''', '''
def _joined_comments(blocks):
    cmt = Comments()
    for block in blocks:
        if block.comments:
            cmt.extend(block.comments)
    return cmt


def get_partials(db):
'''),)
ed(FF + "merge.py", '''
        for k in b.vardata.keys():
            if k not in varnames:
                varnames.append(k)
''', '''
        varnames.extend(k for k in b.vardata.keys() if k not in varnames)
''')
# -- readbase ----------------------------------------------------------------
ed(FF + "readbase.py", '''
        if multiple_files:
            if isinstance(filename, (list, tuple)):
                filenames = []
                for f in filename:
                    filenames.extend(glob(f))
            else:
                filenames = glob(filename)
        else:
            filenames = [filename]
        filenames = [path(f) for f in filenames]
        objs = []
''', '''
        if not multiple_files:
            filenames = [filename]
        elif isinstance(filename, (list, tuple)):
            filenames = [name for pattern in filename
                         for name in glob(pattern)]
        else:
            filenames = glob(filename)
        filenames = list(map(path, filenames))
        objs = []
''')
ed(FF + "readbase.py", '''
        if multiple_files:
            res = obj._merge(objs)
        else:
            res = objs
        if verbose:
            print("\\r%80s\\r" % "")
        return res
''', '''
        if verbose:
            print("\\r%80s\\r" % "")
        return obj._merge(objs) if multiple_files else objs
''')
ed(FF + "readbase.py", '''
        if isinstance(blocks, DataBlock):
            if "FILEINDEX" not in blocks:
                blocks["FILEINDEX"] = DimPartial("FILEINDEX",
                                                 [self.file_index])
        elif isinstance(blocks, list):
            for b in blocks:
                if "FILEINDEX" not in b:
                    b["FILEINDEX"] = DimPartial("FILEINDEX",
                                                [self.file_index])
        else:
            for b in blocks.values():
                if isinstance(b, (list, tuple)):
                    for x in b:
                        if "FILEINDEX" not in x:
                            x["FILEINDEX"] = DimPartial("FILEINDEX",
                                                        [self.file_index])
                else:
                    if "FILEINDEX" not in b:
                        b["FILEINDEX"] = DimPartial("FILEINDEX",
                                                    [self.file_index])
        self.file_index += 1
        return blocks
''', '''
        if isinstance(blocks, DataBlock):
            self._mark_fileindex(blocks)
        elif isinstance(blocks, list):
            for b in blocks:
                self._mark_fileindex(b)
        else:
            for b in blocks.values():
                if isinstance(b, (list, tuple)):
                    for x in b:
                        self._mark_fileindex(x)
                else:
                    self._mark_fileindex(b)
        self.file_index += 1
        return blocks

    def _mark_fileindex(self, block):
        if "FILEINDEX" not in block:
            block["FILEINDEX"] = DimPartial("FILEINDEX", [self.file_index])
''')
ed(FF + "readbase.py", '''
        blocks = self._make_complex(blocks)
        blocks = self._properties_to_vars(blocks)
        blocks = self._guess_unit(blocks)
        blocks = self._normalize(blocks)
        blocks = self._combine_matrices(blocks)
        #import pdb;pdb.set_trace()
        blocks = self._merge(blocks)
''', '''
        for step in (self._make_complex, self._properties_to_vars,
                     self._guess_unit, self._normalize,
                     self._combine_matrices, self._merge):
            blocks = step(blocks)
''')
ed(FF + "readbase.py", '''
        out = []
        if self.normalize:
            for db in blocks:
                out.append(self.normalize_names(db))
        else:
            out = blocks
        return out
''', '''
        if not self.normalize:
            return blocks
        return [self.normalize_names(db) for db in blocks]
''')
ed(FF + "readbase.py", '''
        if self.merge:
            if len(blocks) == 1:
                return blocks[0]
            else:
                return merge_blocks(blocks, hyper=self.hyper)
        else:
            return blocks
''', '''
        if not self.merge:
            return blocks
        if len(blocks) == 1:
            return blocks[0]
        return merge_blocks(blocks, hyper=self.hyper)
''')
ed(FF + "readbase.py", '''
        for name in kw:
            if not hasattr(self, name):
                setattr(self, name, kw[name])
''', '''
        for name, value in kw.items():
            if hasattr(self, name):
                continue
            setattr(self, name, value)
''')
ed(FF + "readbase.py", '''
    for vname, alt in varnames.items():
        if "Re" in alt and "Im" in alt:
            if vname in dataset:
                pass  # Already scalar data present
            else:
                dataset[vname] = (dataset[alt["Re"][-1]] +
                                  dataset[alt["Im"][-1]] * 1j)
                del dataset[alt["Re"][-1]]
                del dataset[alt["Im"][-1]]
''', '''
    for vname, alt in varnames.items():
        if "Re" in alt and "Im" in alt:
            if vname not in dataset:
                re_name = alt["Re"][-1]
                im_name = alt["Im"][-1]
                dataset[vname] = dataset[re_name] + dataset[im_name] * 1j
                del dataset[re_name]
                del dataset[im_name]
''')
ed(FF + "readbase.py", '''
    res = reg_varunit.match(varname)
    if res:
        vname, unit = res.groups()
        mul, unit = unit_to_multiplier(unit)
#        db.rename(varname, vname)
        if varname in db.ivardata:
            olddim = db.ivardata[varname]
            newdim = olddim.__class__(olddim, name=vname,
                                      data=olddim.data * mul, unit=unit)
            db.replace_dim(olddim, newdim)
        else:
            db.rename(varname, vname)
            db[vname] = db[vname] * mul
            db[vname].unit = unit
''', '''
    res = reg_varunit.match(varname)
    if res is None:
        return
    vname = res.group(1)
    mul, unit = unit_to_multiplier(res.group(2))
    if varname not in db.ivardata:
        db.rename(varname, vname)
        db[vname] = db[vname] * mul
        db[vname].unit = unit
    else:
        olddim = db.ivardata[varname]
        db.replace_dim(olddim, olddim.__class__(olddim, name=vname,
                                                data=olddim.data * mul,
                                                unit=unit))
''')
ed(FF + "readbase.py", '''
    i_idx = set()
    j_idx = set()
    elems = []
    for i, j, elemname in sorted(elem_tuples):
        i_idx.add(i)
        j_idx.add(j)
        elems.append(elemname)

    if len(i_idx) * len(j_idx) != len(elems):
        return None, None, None
    else:
        return elems, sorted(i_idx), sorted(j_idx)
''', '''
    ordered = sorted(elem_tuples)
    i_idx = set(i for i, j, elemname in ordered)
    j_idx = set(j for i, j, elemname in ordered)
    elems = [elemname for i, j, elemname in ordered]
    if len(elems) == len(i_idx) * len(j_idx):
        return elems, sorted(i_idx), sorted(j_idx)
    return None, None, None
''')
# -- __init__, spdata, touchstone ----------------------------------------------
ed(FF + "__init__.py", '''
    for f in filenames:
        files = glob.glob(f)
        if len(files) != 0:
            fname = files[0]
            break
    else:
        raise IOError("No files match pattern %r" % filename)
''', '''
    fname = None
    for f in filenames:
        files = glob.glob(f)
        if files:
            fname = files[0]
            break
    if fname is None:
        raise IOError("No files match pattern %r" % filename)
''')
ed(FF + "__init__.py", '''
    if not cachename.exists() or reread:
        data = read_data(filename, verbose=verbose)
        yield data, True
        save_hdf5(data, cachename)
    else:
        data = read_hdf5(cachename)
        yield data, False
''', '''
    if cachename.exists() and not reread:
        yield read_hdf5(cachename), False
    else:
        data = read_data(filename, verbose=verbose)
        yield data, True
        save_hdf5(data, cachename)
''')
ed(FF + "spdata.py", '''
            for varname in output:
                data = output[varname]
                if len(data) > 1:
                    output[varname] = np.array(output[varname],
                                               order="F").T
                else:
                    output[varname] = np.array(output[varname][0])

            freq = DimSweep(header[0].strip(), output[header[0].strip()])
            db[header[0].strip()] = freq
''', '''
            for varname in output:
                columns = output[varname]
                if len(columns) <= 1:
                    output[varname] = np.array(columns[0])
                else:
                    output[varname] = np.array(columns, order="F").T

            sweepname = header[0].strip()
            freq = DimSweep(sweepname, output[sweepname])
            db[sweepname] = freq
''')
ed(FF + "spdata.py", '''
            if not rad:  # skip empty lines
                continue
            elif rad.startswith("!Fullcomments"):
                continue
            elif rad.startswith("!"):  # Comment line with information
                yield Token("Comment", lineno, rad[1:])
''', '''
            if not rad or rad.startswith("!Fullcomments"):
                continue
            if rad.startswith("!"):  # Comment line with information
                yield Token("Comment", lineno, rad[1:])
''')
ed(FF + "touchstone.py", '''
    if len(info_list) == 5:
        info = freq_mult, twoporttype, datatype, rtype, z0 = info_list
    elif len(info_list) == 3:
        info = freq_mult, twoporttype, datatype = info_list
        z0 = 1.
    else:
        msg = ("# format should only have 5 values this one has %d" %
               len(info_list))
        raise TouchstoneError(msg)
    z0 = float(z0)
    f = f * freqmultdict[freq_mult]
    if fn is not None:
        fn = fn * freqmultdict[freq_mult]
''', '''
    if len(info_list) not in (3, 5):
        raise TouchstoneError("# format should only have 5 values "
                              "this one has %d" % len(info_list))
    info = info_list
    freq_mult, twoporttype, datatype = info_list[:3]
    z0 = float(info_list[4]) if len(info_list) == 5 else 1.
    scale = freqmultdict[freq_mult]
    f = f * scale
    if fn is not None:
        fn = fn * scale
''')
ed(FF + "touchstone.py", '''
    if out.shape[1] == 1:
        out.shape = (out.shape[0], 1, 1)
    elif out.shape[1] == 4:
        out.shape = (out.shape[0], 2, 2)
        out = out.transpose(0, 2, 1)
    else:
        N = int(sqrt(out.shape[1]))
        out.shape = (out.shape[0], N, N)
''', '''
    nports = int(sqrt(out.shape[1]))
    out.shape = (out.shape[0], nports, nports)
    if nports == 2:
        out = out.transpose(0, 2, 1)
''')
ed(FF + "touchstone.py", '''
        if not current_row:
            if output:
                if rad[0] <= output[-1][0]:
                    if N == 9:  # N==9 when two-port
                        noise, _ = _process_data(data[idx:], 5)
                        if noise:
                            return output, noise
                    return None, None
                else:
                    current_row.extend(rad)
            else:
                current_row.extend(rad)
        else:
            current_row.extend(rad)
''', '''
        if not current_row and output and rad[0] <= output[-1][0]:
            if N == 9:  # N==9 when two-port
                noise, _ = _process_data(data[idx:], 5)
                if noise:
                    return output, noise
            return None, None
        current_row.extend(rad)
''')
ed(FF + "touchstone.py", '''
    for row in zip(*columns):
        out = []
        for elem, fmt in zip(row, fmts):
            if iscomplexobj(elem):
                out.append(fmt % elem.real)
                out.append(fmt % elem.imag)
            else:
                out.append(fmt % elem)
        yield out
''', '''
    for row in zip(*columns):
        out = []
        for elem, fmt in zip(row, fmts):
            parts = (elem.real, elem.imag) if iscomplexobj(elem) else (elem,)
            for part in parts:
                out.append(fmt % part)
        yield out
''')
# -- dataset -----------------------------------------------------------------
ed(DS + "dataset.py", '''
        for v in self.vardata.keys():
            data = self.vardata[v].view()
            try:
                i = data.dims_index(boolarray.dims[0])
            except IndexError:  # This variable does not sweep in boolarray dim
                out[v] = data
                continue
            newinfo = list(data.dims)
            reorder = list(range(data.ndim))
            del newinfo[i]
            del reorder[i]
            reorder = tuple([i] + reorder)
            newinfo = tuple([newdim] + newinfo)
            data = data.transpose(*reorder)
''', '''
        for v in self.vardata.keys():
            data = self.vardata[v].view()
            try:
                i = data.dims_index(olddim)
            except IndexError:  # This variable does not sweep in boolarray dim
                out[v] = data
                continue
            others = [k for k in range(data.ndim) if k != i]
            newinfo = (newdim,) + tuple(data.dims[k] for k in others)
            data = data.transpose(*([i] + others))
''')
ed(DS + "dataset.py", '''
        out = list(self.ivardata.keys())
        for x in self.vardata.keys():
            if x not in out:
                out.append(x)
        return out
''', '''
        names = list(self.ivardata.keys())
        names.extend([x for x in self.vardata.keys() if x not in names])
        return names
''')
ed(DS + "dataset.py", '''
            try:
                i = data.dims_index(dimname)
                out[v] = data.take(sortorder, i)
            except IndexError:  # This variable does not contain sort direction
                out[v] = data
                continue

        olddim = self.ivardata[dimname]
        out.xname = self.xname
        data = self[dimname][sortorder]
        out.replace_dim(olddim, olddim.__class__(olddim, data=data))
        return out
''', '''
            try:
                i = data.dims_index(dimname)
                data = data.take(sortorder, i)
            except IndexError:  # This variable does not contain sort direction
                pass
            out[v] = data

        olddim = self.ivardata[dimname]
        newdim = olddim.__class__(olddim, data=self[dimname][sortorder])
        out.xname = self.xname
        out.replace_dim(olddim, newdim)
        return out
''')
ed(DS + "dataset.py", '''
        for x in dimnames:
            if indexed:
                newname = "%s_index" % x
            else:
                newname = x
            values = stable_uniq(self[x])
            dims.append(DimSweep(newname, values,
                                 unit=self[x].unit,
                                 outputformat=self[x].outputformat))
            sortdata.append([values.index(value) for value in self[x]])
        dims = tuple(dims)
        dims_shape = tuple(len(x.data) for x in dims)
''', '''
        for x in dimnames:
            column = self[x]
            values = stable_uniq(column)
            newname = "%s_index" % x if indexed else x
            dims.append(DimSweep(newname, values,
                                 unit=column.unit,
                                 outputformat=column.outputformat))
            sortdata.append(list(map(values.index, column)))
        dims = tuple(dims)
        dims_shape = tuple([len(dim.data) for dim in dims])
''')
ed(DS + "dataset.py", '''
        for k, v in self.ivardata.items():
            if k not in out and k != replacedim.name:
                out[k] = v
        return out
''', '''
        for k, v in self.ivardata.items():
            if k in out or k == replacedim.name:
                continue
            out[k] = v
        return out
''')
ed(DS + "dataset.py", '''
                if varname in self and self[varname].unit is None:
                    if varname in self.ivardata:
                        olddim = self.ivardata[varname]
                        newdim = olddim.__class__(olddim, unit=unit)
                        self.replace_dim(olddim, newdim)
                    else:
                        self[varname].unit = unit
''', '''
                if varname in self and self[varname].unit is None:
                    self._give_unit(varname, unit)
''')
E[-1] = E[-1] + (('''
    def remove_rep(self, newdimname="AllReps"):
''', '''
    def _give_unit(self, varname, unit):
        if varname not in self.ivardata:
            self[varname].unit = unit
            return
        olddim = self.ivardata[varname]
        self.replace_dim(olddim, olddim.__class__(olddim, unit=unit))

    def remove_rep(self, newdimname="AllReps"):
'''),)
ed(DS + "comments.py", '''
        out = Comments()
        out.fullcomments = self.fullcomments[:]
        out.property = self.property.copy()
        return out
''', '''
        duplicate = Comments()
        duplicate.property = self.property.copy()
        duplicate.fullcomments = list(self.fullcomments)
        return duplicate
''')
# -- constants, networks -------------------------------------------------------
ed("hftools/constants/si_units.py", '''
    if len(unit) == 1:
        if unit == "%":
            return .01, None
        if unit == "#":
            return 1, None
        else:
            return 1, unit
    elif len(unit) >= 2 and unit[0] in siprefixes:
        if unit[1:] in siunit_names:
            return siprefixes[unit[0]], unit[1:]
        else:
            return 1, unit
    else:
        return 1, unit
''', '''
    if unit == "%":
        return .01, None
    if unit == "#":
        return 1, None
    prefix, base = unit[:1], unit[1:]
    if len(unit) >= 2 and prefix in siprefixes and base in siunit_names:
        return siprefixes[prefix], base
    return 1, unit
''')
ed("hftools/constants/si_units.py", '''
    if np.isinf(number):
        prefix = ""
        if number > 0:
            num = "inf"
        else:
            num = "-inf"
    else:
        num, exp = _help_format_sci(number, digs)
        if digs is None:
            pass
        else:
            numfmt = "%%.%df" % digs
            num = numfmt % num
        if greek:
            prefix = si_exp_to_prefixes_greek[exp]
        else:
            prefix = si_exp_to_prefixes[exp]
''', '''
    if np.isinf(number):
        prefix = ""
        num = "inf" if number > 0 else "-inf"
    else:
        num, exp = _help_format_sci(number, digs)
        if digs is not None:
            num = ("%%.%df" % digs) % num
        table = si_exp_to_prefixes_greek if greek else si_exp_to_prefixes
        prefix = table[exp]
''')
ed("hftools/constants/si_units.py", '''
    unit = unit.strip()
    if unit:
        mul, unit = unit_to_multiplier(unit)
    else:
        mul = 1
        unit = None
    return hftools.dataset.hfarray(to_numeric(value, error=True) * mul,
                                   unit=unit)
''', '''
    mul, baseunit = 1, None
    if unit.strip():
        mul, baseunit = unit_to_multiplier(unit.strip())
    number = to_numeric(value, error=True)
    return hftools.dataset.hfarray(number * mul, unit=baseunit)
''')
ed("hftools/networks/noise.py", '''
            CA = self.C / (2 * k * 290)
            CA11 = CA[..., 0, 0]
            CA12 = CA[..., 0, 1]
            CA22 = CA[..., 1, 1]
            Rn = CA11.real / 2
            Yopt = (np.sqrt(CA22 / CA11 - (CA12.imag / CA11) ** 2) +
                    1j * (CA12.imag / CA11))
            Fmin = 1 + (CA12 + CA11 * Yopt.conj()).real
            if partial:
                db.CA = CA
            db.Rn = Rn
            db.Yopt = Yopt
            db.Fmin = Fmin
            db.Gopt = (1 / 50. - Yopt) / (1 / 50. + Yopt)
            return db
''', '''
            CA = self.C / (2 * k * 290)
            if partial:
                db.CA = CA
            CA11 = CA[..., 0, 0]
            CA12 = CA[..., 0, 1]
            CA22 = CA[..., 1, 1]
            Bopt = CA12.imag / CA11
            Yopt = np.sqrt(CA22 / CA11 - Bopt ** 2) + 1j * Bopt
            Y0 = 1 / 50.
            db.Rn = CA11.real / 2
            db.Yopt = Yopt
            db.Fmin = 1 + (CA12 + CA11 * Yopt.conj()).real
            db.Gopt = (Y0 - Yopt) / (Y0 + Yopt)
            return db
''')
ed("hftools/networks/noise.py", '''
        N = dest(self.N)
        _, T_s2d, _ = convert(self.N.P, N.P, self.N)
        C = matrix_multiply(matrix_multiply(T_s2d, self.C), Hconj(T_s2d))
        C[..., 0, 0] = C[..., 0, 0].real
        C[..., 1, 1] = C[..., 1, 1].real
        if Tout:
            return NoisyTwoport(N, C), T_s2d
        else:
            return NoisyTwoport(N, C)
''', '''
        N = dest(self.N)
        T_s2d = self.T(dest)
        C = matrix_multiply(matrix_multiply(T_s2d, self.C), Hconj(T_s2d))
        for i in (0, 1):
            C[..., i, i] = C[..., i, i].real
        converted = NoisyTwoport(N, C)
        return (converted, T_s2d) if Tout else converted
''')

# -- second set: arrays, networks, math, CITI, HDF5 ---------------------------
NW = "hftools/networks/"
ed(DS + "arrayobj.py", '''
    diagstride = 0
    diagshapes = []
    newstrides = list(x.strides[:])
    newshapes = list(x.shape[:])

    indices = [x.dims.index(ax) for ax in diagonal]
    first = indices[0]

     #reversed so we can delete idx without messing up
     #the order of the remaining elements
    indices.sort(reverse=True)
    for idx in indices:
        diagstride += newstrides[idx]
        diagshapes.append(newshapes[idx])

        del newstrides[idx]
        del newshapes[idx]
    newshapes.insert(first, min(diagshapes))
    newstrides.insert(first, diagstride)
    return as_strided(x, newshapes, newstrides)
''', '''
    newstrides = list(x.strides)
    newshapes = list(x.shape)
    indices = [x.dims.index(ax) for ax in diagonal]
    first = indices[0]
    diagstride = 0
    diagshapes = []
    for idx in sorted(indices, reverse=True):
        diagstride += newstrides.pop(idx)
        diagshapes.append(newshapes.pop(idx))
    newshapes.insert(first, min(diagshapes))
    newstrides.insert(first, diagstride)
    return as_strided(x, newshapes, newstrides)
''')
ed(DS + "arrayobj.py", '''
    out = x
    if diags is None:
        diags = [ax for ax in x.dims if isinstance(ax, _DiagAxis)]

    for ax in diags:
        out = _expand_diagonal(out, ax)
    return out
''', '''
    if diags is None:
        diags = []
        for ax in x.dims:
            if isinstance(ax, _DiagAxis):
                diags.append(ax)

    for diag in diags:
        x = _expand_diagonal(x, diag)
    return x
''')
ed(DS + "arrayobj.py", '''
    newinfo = DimsList(a[0].dims)
    for B in a[1:]:
        for dim in B.dims:
            if dim not in newinfo:
                newinfo.append(dim)
    newinfo.sort(key=lambda x: x.sortprio)
    return Dims(newinfo)
''', '''
    union = DimsList(a[0].dims)
    for other in a[1:]:
        for dim in other.dims:
            if dim in union:
                continue
            union.append(dim)
    union.sort(key=_sort_priority)
    return Dims(union)


def _sort_priority(dim):
    return dim.sortprio
''')
ed(DS + "arrayobj.py", '''
    newself = x.view()
    newselfshape = []
    neworder = []
    selfdims = x.dims
    for dim in newdims:
        if dim in x.dims:
            newselfshape.append(x.shape[selfdims.matching_index(dim)])
            neworder.append(selfdims.matching_index(dim))
        else:
            newselfshape.append(1)
    newself = newself.transpose(*neworder)
    newself.shape = tuple(newselfshape)
    newself.dims = Dims(newdims)
    return newself
''', '''
    selfdims = x.dims
    newshape = []
    neworder = []
    for dim in newdims:
        if dim not in selfdims:
            newshape.append(1)
            continue
        idx = selfdims.matching_index(dim)
        neworder.append(idx)
        newshape.append(x.shape[idx])
    out = x.view().transpose(*neworder)
    out.shape = tuple(newshape)
    out.dims = Dims(newdims)
    return out
''')
ed(DS + "arrayobj.py", '''
    if ismatrix(x):
        newshape = (shape[0], int(np.multiply.reduce(shape[1:-2])))
        newshape = newshape + shape[-2:]
    else:
        newshape = (shape[0], int(np.multiply.reduce(shape[1:])))
    outa = a.reshape(newshape)
    if isinstance(x, hfarray):
        dim = DimRep("Tail", np.arange(outa.shape[1]))
        dims = (x.dims[0], dim)
        if ismatrix(x):
            dims = dims + x.dims[-2:]
        outa = hfarray(outa, dims=dims, unit=x.unit)
    return outa
''', '''
    is_matrix = ismatrix(x)
    if is_matrix:
        middle, matrixshape = shape[1:-2], shape[-2:]
    else:
        middle, matrixshape = shape[1:], ()
    newshape = (shape[0], int(np.multiply.reduce(middle))) + matrixshape
    outa = a.reshape(newshape)
    if not isinstance(x, hfarray):
        return outa
    dims = (x.dims[0], DimRep("Tail", np.arange(outa.shape[1])))
    if is_matrix:
        dims += x.dims[-2:]
    return hfarray(outa, dims=dims, unit=x.unit)
''')
ed(DS + "arrayobj.py", '''
    order = [(i, dim) for i, dim in enumerate(data.dims)
             if isinstance(dim, DimRep)]
#    pdb.set_trace()

    if order:
        dims = list(zip(*order))[1]

        newdata = data.reorder_dimensions(*(data.dims[:order[0][0]] + dims))
        shapes = [data.shape[i] for i, _ in order]
        repsize = int(np.multiply.reduce(shapes))
        first = order[0][0]
        tail = first + len(order)
''', '''
    order = []
    for i, dim in enumerate(data.dims):
        if isinstance(dim, DimRep):
            order.append((i, dim))

    if order:
        first = order[0][0]
        repdims = tuple(dim for _, dim in order)

        newdata = data.reorder_dimensions(*(data.dims[:first] + repdims))
        repsize = int(np.multiply.reduce([data.shape[i] for i, _ in order]))
        tail = first + len(order)
''')
ed(DS + "arrayobj.py", '''
    i = False
    j = False
    if isinstance(a, _hfarray):
        for dim in a.dims:
            if isinstance(dim, DimMatrix_i):
                i = True
            elif isinstance(dim, DimMatrix_j):
                j = True
            else:
                pass
            if i and j:
                return True
    return False
''', '''
    if not isinstance(a, _hfarray):
        return False
    has_i = any(isinstance(dim, DimMatrix_i) for dim in a.dims)
    has_j = any(isinstance(dim, DimMatrix_j) for dim in a.dims)
    return has_i and has_j
''')
ed(DS + "arrayobj.py", '''
    out = []
    for d in dims:
        if olddim.name == d.name:
            out.append(newdim)
        else:
            out.append(d)
    return Dims(out)
''', '''
    return Dims([newdim if d.name == olddim.name else d for d in dims])
''')
ed(DS + "arrayobj.py", '''
        if outputformat is not None:
            subarr.outputformat = outputformat
        elif hasattr(data, "outputformat"):
            subarr.outputformat = data.outputformat
        else:
            if is_integer(subarr):
                subarr.outputformat = "%d"
            elif is_numlike(subarr):
                subarr.outputformat = "%.16e"
            elif np.issubdtype(subarr.dtype, np.datetime64):
                subarr.outputformat = "%s"
            else:
                subarr.outputformat = "%s"

        # Finally, we must return the newly created object:
        if unit is None and hasattr(data, "unit"):
            subarr.__dict__["unit"] = data.unit
        else:
            subarr.__dict__["unit"] = unit
        return subarr
''', '''
        if outputformat is None:
            if hasattr(data, "outputformat"):
                outputformat = data.outputformat
            elif is_integer(subarr):
                outputformat = "%d"
            elif is_numlike(subarr):
                outputformat = "%.16e"
            else:
                outputformat = "%s"
        subarr.outputformat = outputformat

        # Finally, we must return the newly created object:
        if unit is None:
            unit = getattr(data, "unit", None)
        subarr.__dict__["unit"] = unit
        return subarr
''')
ed(DS + "arrayobj.py", '''
        for idx, ax in enumerate(self.dims):
            if ax.name == name:
                if cls is None:
                    return idx
                elif isinstance(ax, cls):
                    return idx
        msg
''', '''
        for idx, ax in enumerate(self.dims):
            if ax.name == name and (cls is None or isinstance(ax, cls)):
                return idx
        msg
''')
ed(DS + "arrayobj.py", '''
        infos = list(self.dims[:])
        neworder = []
        for dim in order:
            neworder.append(self.dims.index(dim))
            del infos[infos.index(dim)]
        for dim in infos:
            neworder.append(self.dims.index(dim))
        return self.transpose(*neworder)
''', '''
        remaining = list(self.dims)
        for dim in order:
            del remaining[remaining.index(dim)]
        neworder = [self.dims.index(dim) for dim in order]
        neworder += [self.dims.index(dim) for dim in remaining]
        return self.transpose(*neworder)
''')
ed(DS + "arrayobj.py", '''
        if not order:
            order = range(self.ndim)[::-1]
        return self.__class__(ndarray.transpose(self, *order),
                              dims=[self.dims[i] for i in order], copy=False)
''', '''
        if len(order) == 0:
            order = tuple(reversed(range(self.ndim)))
        newdims = [self.dims[i] for i in order]
        transposed = ndarray.transpose(self, *order)
        return self.__class__(transposed, dims=newdims, copy=False)
''')
ed(DS + "arrayobj.py", '''
        if dims is None:
            newinfo = [ax for idx, ax in enumerate(self.dims)
                       if self.shape[idx] != 1]
        else:
            newinfo = [ax for idx, ax in enumerate(self.dims)
                       if idx not in dimidxs]
        return self.__class__(ndarray.squeeze(self, axis=dimidxs),
                              dims=newinfo, copy=False)
''', '''
        newdims = []
        for idx, (ax, size) in enumerate(zip(self.dims, self.shape)):
            if dims is None:
                keep = size != 1
            else:
                keep = idx not in dimidxs
            if keep:
                newdims.append(ax)
        squeezed = ndarray.squeeze(self, axis=dimidxs)
        return self.__class__(squeezed, dims=newdims, copy=False)
''')
ed(DS + "arrayobj.py", '''
        axis = self.dims_index(axis_handler(self, axis))
        olddim = self.dims[axis]
        newdim = olddim.__class__(olddim,
                                  data=np.asarray(olddim.data)[indices])
        data = np.ndarray.take(self, indices, axis, out, mode)
        newdims = list(self.dims)
        newdims[axis] = newdim
        data.dims = Dims(newdims)
        return data
''', '''
        axis = self.dims_index(axis_handler(self, axis))
        result = np.ndarray.take(self, indices, axis, out, mode)
        olddim = self.dims[axis]
        values = np.asarray(olddim.data)[indices]
        newdims = list(self.dims)
        newdims[axis] = olddim.__class__(olddim, data=values)
        result.dims = Dims(newdims)
        return result
''')
ed(NW + "multiports.py", '''
    PB = inv(toP)
    PA = fromP
    P = matrix_multiply(PA, PB)
    n = a.shape[-1]
    tau1 = P[..., :n, :n]
    sigma1 = P[..., :n, n:]
    tau2 = P[..., n:, :n]
    sigma2 = P[..., n:, n:]
    A = inv(tau1 - matrix_multiply(a, tau2))
    B = -sigma1 + matrix_multiply(a, sigma2)
    res = matrix_multiply(A, B)
    return res, A, B
''', '''
    P = matrix_multiply(fromP, inv(toP))
    n = a.shape[-1]
    first, last = slice(None, n), slice(n, None)
    B = matrix_multiply(a, P[..., last, last]) - P[..., first, last]
    A = inv(P[..., first, first] - matrix_multiply(a, P[..., last, first]))
    return matrix_multiply(A, B), A, B
''')
ed(NW + "multiports.py", '''
            names = [self.shortname.lower(), self.shortname.upper(),
                     self.shortname]
            for name in names:
                for i in range(data.shape[-1]):
                    for j in range(data.shape[-1]):
                        label = "%s%d%d" % (name, i + 1, j + 1)
                        accessor = make_accessor(i, j)
                        self._attrfuns[label] = accessor
''', '''
            nports = data.shape[-1]
            for i in range(nports):
                for j in range(nports):
                    accessor = make_accessor(i, j)
                    for name in (self.shortname.lower(),
                                 self.shortname.upper(), self.shortname):
                        self._attrfuns["%s%d%d" % (name, i + 1, j + 1)] = \\
                            accessor
''')
ed(NW + "multiports.py", '''
            if Z0 is None:
                self.Z0 = getattr(data, "Z0", None)
            else:
                self.Z0 = Z0
            if self.ismatrix() and (data.shape[-1] == data.shape[-2]):
                view = data.view(type=hfarray, dtype=data.dtype)
                res, _, _ = convert(data.P, self.P, view)
                self.view(type=hfarray, dtype=self.dtype)[:] = res
            else:
                fmt = ("Can not convert subelements of a %s matrix to "
                       "elements of a %s matrix")
                msg = fmt % (data.__class__.__name__, self.__class__.__name__)
                raise ValueError(msg)
''', '''
            self.Z0 = getattr(data, "Z0", None) if Z0 is None else Z0
            if not (self.ismatrix() and data.shape[-2] == data.shape[-1]):
                msg = ("Can not convert subelements of a %s matrix to "
                       "elements of a %s matrix"
                       % (data.__class__.__name__, self.__class__.__name__))
                raise ValueError(msg)
            source = data.view(dtype=data.dtype, type=hfarray)
            target = self.view(dtype=self.dtype, type=hfarray)
            target[:] = convert(data.P, self.P, source)[0]
''')
ed(NW + "multiports.py", '''
        if left is None and right is None:
            return self
        elif left is None:
            return self.__class__(deembedright(SArray(self),
                                               SArray(right)))
        elif right is None:
            return self.__class__(deembedleft(SArray(left),
                                              SArray(self)))
        else:
            return self.__class__(deembed(SArray(left),
                                          SArray(self),
                                          SArray(right)))
''', '''
        if left is None and right is None:
            return self
        dut = SArray(self)
        if left is None:
            result = deembedright(dut, SArray(right))
        elif right is None:
            result = deembedleft(SArray(left), dut)
        else:
            result = deembed(SArray(left), dut, SArray(right))
        return self.__class__(result)
''')
ed(NW + "multiports.py", '''
        try:
            object.__getattribute__(self, key)
            object.__setattr__(self, key, value)
            return
        except AttributeError:
            pass
        self.__getattr__(key)[...] = value
''', '''
        try:
            object.__getattribute__(self, key)
            object.__setattr__(self, key, value)
        except AttributeError:
            self.__getattr__(key)[...] = value
''')
ed("hftools/math.py", '''
    if deg:
        b = -180 if branch is None else branch
        B = (b - (-180))
        b = B / 180. * np.pi
    else:
        b = -np.pi if branch is None else branch
        B = (b - (-np.pi))
        b = B
    Z = np.asanyarray(z) / exp(1j * b)
    res = np.angle(Z, deg)
    res = res + B
''', '''
    half_turn = 180 if deg else np.pi
    if branch is None:
        branch = -half_turn
    offset = branch + half_turn
    if deg:
        rotation = offset / 180. * np.pi
    else:
        rotation = offset
    Z = np.asanyarray(z) / exp(1j * rotation)
    res = np.angle(Z, deg) + offset
''')
ed("hftools/math.py", '''
    a, b, c, d = make_same_dims_list([a, b, c, d])
    abcdshape = zip(a.shape, b.shape, c.shape, d.shape)
    maxshape = (tuple(max(x) for x in abcdshape) + (2, 2))
    dtype = np.result_type(a.dtype, b.dtype, c.dtype, d.dtype)
    res = zeros(maxshape, dtype)
    res[..., 0, 0] = a
    res[..., 0, 1] = b
    res[..., 1, 0] = c
    res[..., 1, 1] = d
    dims = a.dims + (DimMatrix_i("i", 2), DimMatrix_j("j", 2),)
    out = hfarray(res, dims=dims)
    return out
''', '''
    elements = make_same_dims_list([a, b, c, d])
    a, b, c, d = elements
    shapes = zip(*[x.shape for x in elements])
    maxshape = tuple(max(sizes) for sizes in shapes)
    res = zeros(maxshape + (2, 2),
                np.result_type(*[x.dtype for x in elements]))
    res[..., 0, 0], res[..., 0, 1] = a, b
    res[..., 1, 0], res[..., 1, 1] = c, d
    return hfarray(res, dims=a.dims + (DimMatrix_i("i", 2),
                                       DimMatrix_j("j", 2)))
''')
ed("hftools/math.py", '''
    if isinstance(x, np.ndarray):
        x = x.copy()
        x[abs(x) < threshold] = 0
        return x
    else:
        if abs(x) < threshold:
            return 0 * x
        else:
            return x
''', '''
    if not isinstance(x, np.ndarray):
        return 0 * x if abs(x) < threshold else x
    out = x.copy()
    small = abs(out) < threshold
    out[small] = 0
    return out
''')
ed("hftools/math.py", '''
    result = data.real * 0
    a = angle(data[0])
    a0 = np.median(array(a.flat[0], copy=False))
    add_pos = abs(a - a0 + 2 * pi) < 2
    add_neg = abs(a - a0 - 2 * pi) < 2
    result[0] = a
    result[1:] = (np.add.accumulate(angle(data[1:] / data[:-1]), 0) +
                  angle(data[0]))
    result1 = np.where(array(add_pos), array(result + 2 * pi), array(result))
    result2 = np.where(array(add_neg), array(result1 - 2 * pi), array(result1))
    if deg:
        result2 = result2 / pi * 180
    return hfarray(result2, dims=data.dims)
''', '''
    turn = 2 * pi
    start = angle(data[0])
    reference = np.median(array(start.flat[0], copy=False))
    steps = angle(data[1:] / data[:-1])
    result = data.real * 0
    result[0] = start
    result[1:] = np.add.accumulate(steps, 0) + start
    too_low = array(abs(start - reference + turn) < 2)
    too_high = array(abs(start - reference - turn) < 2)
    phase = np.where(too_low, array(result + turn), array(result))
    phase = np.where(too_high, array(phase - turn), array(phase))
    if deg:
        phase = phase / pi * 180
    return hfarray(phase, dims=data.dims)
''')
ed("hftools/math.py", '''
    f_mean = (freq[:-1] + freq[1:]) / 2
    domega = (2 * pi * (freq[:-1] - freq[1:]))
    dfi = angle(var[1:] / var[:-1])
    return (f_mean, dfi / domega)
''', '''
    lower, upper = freq[:-1], freq[1:]
    dfi = angle(var[1:] / var[:-1])
    domega = 2 * pi * (upper - lower)
    return (lower + upper) / 2, -dfi / domega
''')
ed("hftools/math.py", '''
    len = data.shape[axis] - 1
    if aperture % 2 == 0:
        odd = 0
    else:
        odd = 1
    for i in range(data.shape[axis]):
        wid = min(i, aperture // 2, abs(len - i))
        if wid != 0:
            newdata[i] = np.mean(data[i - wid: i + wid + odd], axis)
        else:
            newdata[i] = data[i]
    return newdata
''', '''
    npoints = data.shape[axis]
    odd = aperture % 2
    for i in range(npoints):
        wid = min(i, aperture // 2, npoints - 1 - i)
        if wid == 0:
            newdata[i] = data[i]
        else:
            newdata[i] = np.mean(data[i - wid: i + wid + odd], axis)
    return newdata
''')
ed("hftools/math.py", '''
    idx0 = np.searchsorted(x[1:-1], xi)
    idx1 = idx0 + 1
    x0 = x[idx0]
    x1 = x[idx1]
    y0 = y[idx0]
    y1 = y[idx1]
    d0 = (xi - x0)
    d1 = (x1 - xi)
    d = (x1 - x0)
    return (d0 * y1 + d1 * y0) / d
''', '''
    left = np.searchsorted(x[1:-1], xi)
    right = left + 1
    x0, x1 = x[left], x[right]
    y0, y1 = y[left], y[right]
    return ((xi - x0) * y1 + (x1 - xi) * y0) / (x1 - x0)
''')
ed("hftools/math.py", '''
    if xi.min() < x.min():
        raise ValueError("Can not interpolate below lowest value")
    elif xi.max() > x.max():
        raise ValueError("Can not interpolate below highest value")
    else:
        return linear_extrapolate(x, y, xi)
''', '''
    lowest, highest = x.min(), x.max()
    if xi.min() < lowest:
        raise ValueError("Can not interpolate below lowest value")
    if xi.max() > highest:
        raise ValueError("Can not interpolate above highest value")
    return linear_extrapolate(x, y, xi)
''')
ed("hftools/math.py", '''
    A, B = make_same_dims(a, b)
    res = np.einsum("...ij,...jk->...ik", A, B)
    return hfarray(res, dims=A.dims)
''', '''
    left, right = make_same_dims(a, b)
    product = np.einsum("...ij,...jk->...ik", left, right)
    dims = left.dims
    return hfarray(product, dims=dims)
''')
ed("hftools/math.py", '''
    x = np.linalg.solve(AA, bb)
    result = hfarray(x, dims=bb.dims)
    if squeeze:
        result = result.squeeze()
    return result
''', '''
    result = hfarray(np.linalg.solve(AA, bb), dims=bb.dims)
    return result.squeeze() if squeeze else result
''')
ed(FF + "citi.py", '''
            elif rad.startswith("!"):
                yield Token("COMMENT", lineno, rad[1:].strip())
            elif rad.startswith("#"):
                yield Token("COMMENT", lineno, rad[1:].strip())
''', '''
            elif rad.startswith(("!", "#")):
                yield Token("COMMENT", lineno, rad[1:].strip())
''')
ed(FF + "citi.py", '''
        for idx, rad in enumerate(stream):
            lineno = idx + 1
            if self.verbose:
''', '''
        for lineno, rad in enumerate(stream, 1):
            if self.verbose:
''')
ed(FF + "citi.py", '''
    if typ == "MAG":
        return [float(elem) for elem in data]
    elif typ == "RI":
        out = []
        for rad in data:
            r, i = rad.strip().split(",")
            out.append(float(r) + float(i) * 1j)
        return out
    elif typ == "MAGANGLE":
        out = []
        for rad in data:
            r, i = rad.strip().split(",")
            out.append(float(r) * np.exp(float(i) / 180 * pi * 1j))
        return out
    else:
        raise CITIFileError("Unknown Vartype %r" % (typ,))
''', '''
    if typ == "MAG":
        return [float(elem) for elem in data]
    if typ not in ("RI", "MAGANGLE"):
        raise CITIFileError("Unknown Vartype %r" % (typ,))
    out = []
    for rad in data:
        first, second = [float(x) for x in rad.strip().split(",")]
        if typ == "RI":
            out.append(first + second * 1j)
        else:
            out.append(first * np.exp(second / 180 * pi * 1j))
    return out
''')
ed(FF + "citi.py", '''
    for name, value in block.ivardata.items():
        if is_numlike(value.data) and not isinstance(value, _DimMatrix):
            yield "VAR_LIST_BEGIN"
            fmt = value.outputformat
            for rad in value.data:
                yield fmt % rad
            yield "VAR_LIST_END"
''', '''
    for value in block.ivardata.values():
        if isinstance(value, _DimMatrix) or not is_numlike(value.data):
            continue
        yield "VAR_LIST_BEGIN"
        for number in value.data:
            yield value.outputformat % number
        yield "VAR_LIST_END"
''')
ed(FF + "citi.py", '''
            for val in values:
                yield "BEGIN"
                if iscomplexobj(val):
                    fmt = "%s,%s" % (val.outputformat, val.outputformat)
                    for rad in val.flat:
                        yield fmt % (rad.real, rad.imag)
                else:
                    fmt = val.outputformat
                    for rad in val.flat:
                        yield fmt % rad
                yield "END"
''', '''
            for val in values:
                yield "BEGIN"
                for line in _format_values(val):
                    yield line
                yield "END"


def _format_values(val):
    fmt = val.outputformat
    if iscomplexobj(val):
        for number in val.flat:
            yield (fmt + "," + fmt) % (number.real, number.imag)
    else:
        for number in val.flat:
            yield fmt % number
''')
ed(FF + "citi.py", '''
        for rad in format_citi_block(db):
            fil.write(rad)
            fil.write("\\n")
''', '''
        for line in format_citi_block(db):
            fil.write(line + "\\n")
''')
ed(FF + "hdf5/v_02.py", '''
    unit = X.attrs.get("unit", None)
    outputformat = X.attrs.get("outputformat", None)
    dtype = X.attrs.get("dtype", None)
    if len(dims) == len(X.dims):
        return hfarray(X.value, dims=dims, unit=unit,
                       dtype=dtype, outputformat=outputformat)
    else:
        dimcls = dimrep[X.attrs.get("dimtype", "DimSweep")]
        dim = dimcls(X.name.strip("/"), X[...], unit=unit)
        return hfarray(X.value, dims=(dim,), unit=unit,
                       dtype=dtype, outputformat=outputformat)
''', '''
    attrs = X.attrs
    unit = attrs.get("unit")
    if len(dims) != len(X.dims):
        dimcls = dimrep[attrs.get("dimtype", "DimSweep")]
        dims = (dimcls(X.name.strip("/"), X[...], unit=unit),)
    return hfarray(X.value, dims=dims, unit=unit, dtype=attrs.get("dtype"),
                   outputformat=attrs.get("outputformat"))
''')
ed(FF + "hdf5/v_02.py", '''
    if data.ndim:
        if np.issubdtype(data.dtype, np.datetime64):
            data = data.astype(np.uint64)
        elif np.issubdtype(data.dtype, np.unicode_):
            data = data.astype(h5py_string_dtype)
    else:
        if np.issubdtype(data.dtype, np.datetime64):
            data = data.astype(np.uint64)
        elif np.issubdtype(data.dtype, np.unicode_):
            data = data.astype(h5py_string_dtype)
    return data
''', '''
    if np.issubdtype(data.dtype, np.datetime64):
        return data.astype(np.uint64)
    if np.issubdtype(data.dtype, np.unicode_):
        return data.astype(h5py_string_dtype)
    return data
''')
ed(FF + "hdf5/v_02.py", '''
    if expandable:
        if data.ndim in (0, 1):
            maxshape = (None, )
        else:
            maxshape = list(data.shape)
            maxshape[1] = None
            maxshape = tuple(maxshape)
    else:
        maxshape = None
''', '''
    if not expandable:
        maxshape = None
    elif data.ndim <= 1:
        maxshape = (None, )
    else:
        maxshape = data.shape[:1] + (None,) + data.shape[2:]
''')
ed(FF + "hdf5/v_02.py", '''
        db = DataBlock()
        for k in filehandle:
            uk = unescape_varname(k)
            if "dimtype" not in filehandle[k].attrs:
                db[uk] = getvar(filehandle, k)
        for k in filehandle:
            uk = unescape_varname(k)
            if "dimtype" in filehandle[k].attrs and uk not in db.ivardata:
                db[uk] = getdim(filehandle[k])
        db.comments = Comments()
        return db
''', '''
        db = DataBlock()
        dimnames = []
        for k in filehandle:
            if "dimtype" in filehandle[k].attrs:
                dimnames.append(k)
            else:
                db[unescape_varname(k)] = getvar(filehandle, k)
        for k in dimnames:
            name = unescape_varname(k)
            if name not in db.ivardata:
                db[name] = getdim(filehandle[k])
        db.comments = Comments()
        return db
''')
ed(FF + "hdf5/v_02.py", '''
        if v.unit:
            filehandle[ek].attrs["unit"] = v.unit
        if v.outputformat:
            filehandle[ek].attrs["outputformat"] = v.outputformat

    if expandable:
''', '''
        _save_attrs(filehandle[ek].attrs, v)

    if expandable:
''')
E[-1] += (('''
def save_hdf5_handle(''', '''
def _save_attrs(attrs, v):
    for name in ("unit", "outputformat"):
        value = getattr(v, name)
        if value:
            attrs[name] = value


def save_hdf5_handle('''),)
ed(FF + "hdf5/v_02.py", '''
    for k in filehandle:
        uk = unescape_varname(k)
        if uk in db.ivardata or uk == expanddim.name:
            continue
        if uk not in db.vardata:
            raise ValueError("Variable %r missing in db, can not append" % uk)
    idx = filehandle[expanddim.name][-1] + 1
    expand_dataset(filehandle[expanddim.name], 1, 0)
    filehandle[expanddim.name][-1] = idx

    for k, v in filehandle.items():
        uk = unescape_varname(k)
        if uk in db.ivardata or uk == expanddim.name:
            continue
        diskdata = filehandle[k]
''', '''
    names = []
    for k in filehandle:
        uk = unescape_varname(k)
        if uk in db.ivardata or uk == expanddim.name:
            continue
        if uk not in db.vardata:
            raise ValueError("Variable %r missing in db, can not append" % uk)
        names.append((k, uk))
    index = filehandle[expanddim.name]
    nextidx = index[-1] + 1
    expand_dataset(index, 1, 0)
    index[-1] = nextidx

    for k, uk in names:
        diskdata = filehandle[k]
''')

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hand_more  # noqa
hand_more.edits(ed)
import hand_third  # noqa
hand_third.edits(ed)
import hand_fourth  # noqa
hand_fourth.edits(ed)
import hand_fifth  # noqa
hand_fifth.edits(ed)


def read(p):
    with open(p, encoding="latin-1", newline="") as fh:
        return fh.read()


def write(p, t):
    with open(p, "w", encoding="latin-1", newline="") as fh:
        fh.write(t)


def apply(d, e):
    p = os.path.join(d, e[0])
    t = read(p)
    crlf = "\r\n" in t
    t = t.replace("\r\n", "\n")
    for old, new in [(e[1], e[2])] + [(x[0].strip("\n"), x[1].strip("\n"))
                                      for x in e[3:]]:
        if t.count(old) < 1:
            raise ValueError("no match in %s: %s" % (e[0], old[:60]))
        t = t.replace(old, new, 1)
    write(p, t.replace("\n", "\r\n") if crlf else t)


if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [here, os.path.dirname(here)]
    sys.setrecursionlimit(20000)
    if sys.argv[1:2] == ["--apply"]:
        skipped = []
        for i, e in enumerate(E):
            try:
                apply(sys.argv[2], e)
            except ValueError:      # overlaps an earlier edit
                skipped.append(i)
        print(len(E), "edits, skipped", skipped)
        sys.exit()
    import shutil
    import subprocess
    import refactor
    from concurrent.futures import ThreadPoolExecutor
    import json
    with open(os.path.join(os.path.dirname(here), "MANIFEST.json")) as fh:
        man = json.load(fh)
    props = sys.argv[2].split(",") if sys.argv[1:2] == ["-c"] else \
        [c["property"] for c in man["checks"]]
    first = int(os.environ.get("FIRST", "0"))
    last = int(os.environ.get("LAST", len(E)))

    def one(i):
        d = refactor.scratch()
        ev = d + "-ev"
        os.makedirs(ev, exist_ok=True)
        out = []
        try:
            apply(d, E[i])
            for p in props:
                r = subprocess.run(
                    [sys.executable, os.path.join(os.path.dirname(here),
                                                  "check.py"), p, "quick"],
                    env=dict(os.environ, VERIF_REPO=d, VERIF_EVID=ev),
                    capture_output=True, text=True)
                if r.returncode:
                    out.append((p, r.returncode, r.stdout[-1500:] +
                                r.stderr[-800:]))
        finally:
            shutil.rmtree(d)
            shutil.rmtree(ev, ignore_errors=True)
        return i, out
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        bad = 0
        for i, out in ex.map(one, range(first, last)):
            for p, rc, t in out:
                bad += 1
                print("ALARM edit %d %s %s rc=%d\n%s" % (
                    i, E[i][0], p, rc, t))
        print("%d edits, %d alarms" % (last - first, bad))
