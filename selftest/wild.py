"""Realistic bugs written from the property texts, without looking at what the
checks cover (not run through the tests): fast.py wild, wild.py [-a]."""
AO = "dataset/arrayobj.py"
DS = "dataset/dataset.py"
DM = "dataset/dim.py"
CO = "file_formats/common.py"
SP = "file_formats/spdata.py"
MA = "math.py"
W = []


def w(pid, f, *pairs):
    W.append((pid, "bad", f) + pairs)


# -- arrays
w("C01", AO, "    newinfo.sort(key=lambda x: x.sortprio)\n    return Dims(newinfo)",
  "    if len(a) > 1:\n        newinfo.sort(key=lambda x: x.sortprio)\n    return Dims(newinfo[:max(len(x.dims) for x in a) + 1])")
w("C01", AO, "            if self.__array_priority__ < other.__array_priority__:\n                return NotImplemented",
  "            if self.__array_priority__ <= other.__array_priority__:\n                return func(self, other)")
w("C01", AO, "    if not isinstance(B, _hfarray):\n        B = A.__class__(B.view(), dims=A.dims, copy=False)\n    return make_same_dims_list((A, B))",
  "    if not isinstance(B, _hfarray):\n        B = A.__class__(B.view(), dims=A.dims, copy=False)\n    if A.shape == B.shape and set(A.dims) == set(B.dims):\n        return [A, B]\n    return make_same_dims_list((A, B))")
w("C01", AO, "    def __rpow__(self, other):\n        return np.power(other, self)",
  "    def __rpow__(self, other):\n        if isnumber(other) and other == 1:\n            return self\n        return np.power(other, self)")
w("C01", AO, "                if x.name == value.name and isinstance(x, value.__class__):\n                    return idx\n        raise KeyError(\"No dim matching %r\" % value)\n\n\nclass DimsList",
  "                if x.name == value.name and isinstance(value, x.__class__):\n                    return idx\n        raise KeyError(\"No dim matching %r\" % value)\n\n\nclass DimsList")
w("C02", AO, "        axis = min(axis, self.ndim)\n        out = self[(slice(None), ) * axis + (None, )]",
  "        if axis < 0:\n            axis = 0\n        axis = min(axis, self.ndim)\n        out = self[(slice(None), ) * axis + (None, )]")
w("C02", AO, "        order[i], order[j] = order[j], order[i]\n        out = self.transpose(*order)",
  "        if self.shape[i] != self.shape[j]:\n            order[i], order[j] = order[j], order[i]\n        out = self.transpose(*order)")
w("C02", AO, "                    dim = dim[np.arange(len(dim.data))[idx]]",
  "                    dim = dim[np.sort(np.arange(len(dim.data))[idx])]")
w("C02", AO, "        newdim = olddim.__class__(olddim,\n                                  data=np.asarray(olddim.data)[indices])\n        data = np.ndarray.take",
  "        newdim = olddim.__class__(olddim,\n                                  data=np.asarray(olddim.data)[:len(indices)])\n        data = np.ndarray.take")
w("C02", DS, "        data = np.array(y, copy=False).take(bools.argmax(axis=1), dimidx)",
  "        data = np.array(y, copy=False).compress(bools.any(axis=0), dimidx)")
w("C03", AO, "            outidx.append(ax + len(a.dims) if ax < 0 else ax)\n            continue",
  "            outidx.append(abs(ax) - 1 if ax < 0 else ax)\n            continue")
w("C03", AO, "            for dim, dimidx in found:\n                outaxis.append(dim)\n                outidx.append(dimidx)",
  "            dim, dimidx = found[0]\n            outaxis.append(dim)\n            outidx.append(dimidx)")
w("C03", AO, "        return (abs(self) ** 2).sum(axis) ** 0.5", "        return (self ** 2).sum(axis) ** 0.5")
w("C03", AO, "        r = np.asarray(self).min(dimidx, out=out, keepdims=True)", "        r = np.nanmin(np.asarray(self), dimidx, out=out, keepdims=True)")
w("C04", AO, "        return self.__class__(ndarray.squeeze(self, axis=dimidxs),\n                              dims=newinfo, copy=False)",
  "        if len(newinfo) == self.ndim:\n            return hfarray(np.asarray(self), dims=newinfo, copy=False)\n        return self.__class__(ndarray.squeeze(self, axis=dimidxs),\n                              dims=newinfo, copy=False)")
w("C04", AO, "        self.__dict__[\"unit\"] = getattr(obj, \"unit\", None)", "        self.__dict__[\"unit\"] = getattr(obj, \"unit\", None) or None\n        if self.dtype.kind == \"c\":\n            self.__dict__[\"unit\"] = None")
w("C04", AO, "            if hasattr(self, \"unit\") and hasattr(out, \"unit\"):\n                out.unit = self.unit", "            if hasattr(self, \"unit\") and hasattr(out, \"unit\"):\n                out.unit = out.unit or self.unit")
w("C04", DS, "            utdata = hfarray(array(data)[boolarray], dims=newinfo,\n                             unit=data.unit,\n                             outputformat=data.outputformat)",
  "            utdata = hfarray(array(data)[boolarray], dims=newinfo,\n                             outputformat=data.outputformat)")
w("C05", DS, "        for dim in dims:\n            out.ivardata[dim.name] = dim\n\n        for k, v in self.vardata.items():\n            if replacedim not in v.dims:",
  "        for dim in dims:\n            out.ivardata[dim.name] = dim\n            self.vardata.pop(dim.name, None)\n\n        for k, v in self.vardata.items():\n            if replacedim not in v.dims:")
w("C05", DS, "        dim = hfarray(dim, copy=False).squeeze()\n        if dim.ndim > 1:", "        dim = hfarray(dim, copy=False).squeeze()\n        dim.sort()\n        if dim.ndim > 1:")
w("C05", CO, "    out = data.copy()\n    for old, new in _trtable.items():", "    out = data.view() if data.comments is None else data.copy()\n    for old, new in _trtable.items():")
w("C06", DS, "        out = DataBlock()\n        out.blockname = self.blockname\n        if self.comments:\n            out.comments = self.comments.copy()\n        out.vardata = self.vardata.copy()\n        out.ivardata = self.ivardata.copy()\n        out.xname = self.xname\n        out._outputformat",
  "        out = DataBlock()\n        out.blockname = self.blockname\n        if self.comments:\n            out.comments = self.comments.copy()\n        out.vardata = self.vardata.copy()\n        for name in self.ivardata:\n            if any(name in [d.name for d in v.dims] for v in self.vardata.values()):\n                out.ivardata[name] = self.ivardata[name]\n        out.xname = self.xname\n        out._outputformat")
w("C06", "dataset/comments.py", "        out.fullcomments = self.fullcomments[:]", "        out.add_from_comments(self.fullcomments)")
w("C08", DS, "                for dim in value.dims:\n                    if dim.name not in self.ivardata:", "                for dim in value.dims:\n                    if dim not in self.ivardata.values():")
w("C08", DS, "        for v in self.vardata.values():\n            v.replace_dim(olddim, newdim)", "        for k, v in self.vardata.items():\n            if k != newdim.name:\n                v.replace_dim(olddim, newdim)")
w("C08", DS, "        if not (len(set(zip(*sortdata))) == npoints == np.prod(dims_shape)):", "        if not (len(set(zip(*sortdata))) == np.prod(dims_shape)):")
w("C08", DS, "            if k not in out and k != replacedim.name:\n                out[k] = v", "            if k not in out and k not in replacedim.name:\n                out[k] = v")
w("C08", DS, "        data = self[dimname][sortorder]\n", "        data = self[dimname][sortorder] if all(dimname in [d.name for d in v.dims] for v in self.vardata.values()) else self[dimname]\n")
w("C08", DS, "        self.ivardata.rename(olddim.name, newdim.name)\n        self.ivardata[newdim.name] = newdim", "        if olddim.name != newdim.name:\n            del self.ivardata[olddim.name]\n        self.ivardata[newdim.name] = newdim")
w("C09", DS, "        self.order[:] = self.keys()\n        if newname not in self.order:\n            self.order[self.order.index(oldname)] = newname\n        del self[oldname]", "        self.order[:] = self.keys()\n        del self[oldname]")
w("C09", DS, "        for k in dict.keys(self):\n            if k not in out:\n                out.append(k)\n        for k in out:\n            yield k", "        for k in dict.keys(self):\n            if k not in out:\n                out.insert(0, k)\n        for k in out:\n            yield k")
w("C09", DS, "        value = dict.pop(self, key, *default)\n        if key in self.order:\n            self.order.remove(key)\n        return value", "        if key in self.order:\n            self.order.remove(key)\n        value = dict.pop(self, key, *default)\n        if default and value is default[0]:\n            self.order.append(key)\n        return value")
w("C23", DS, "            if not bools.any(axis=1).all():\n" if False else "        if not bools.any(axis=1).all():\n", "        if not bools.any(axis=1).any():\n")
w("C23", DS, "            data = self.vardata[mname]\n            if ismatrix(data):", "            data = self.vardata[mname]\n            if ismatrix(data) and max(elem) >= 0:")
w("C23", DS, "        if boolarray.squeeze().ndim > 1:\n            raise ValueError", "        if boolarray.ndim > 2:\n            raise ValueError")
# -- dims
w("C07", DS, "            newdim = olddim.__class__(olddim, outputformat=format)\n", "            newdim = olddim\n            newdim._outputformat = format\n")
# -- common, spdata, comments
w("C14", CO, "                    if fortranorder:\n                        I, J = j, i", "                    if fortranorder and col.shape[-1] == 2:\n                        I, J = j, i")
w("C14", CO, "        return [fmt % elem.real, fmt % elem.imag]", "        return [fmt % elem.real, fmt % (elem.imag or 0)]")
w("C14", CO, "        return [fmt % elem.real, fmt % elem.imag]", "        return [fmt % elem.real, fmt % abs(elem.imag)]")
w("C14", CO, "    for enum, idx in enumerate(itertools.product(*dimsidx[1:])):", "    for enum, idx in enumerate(itertools.product(*dimsidx[:0:-1])):")
w("C14", CO, "        for iname, dim, i in zip(dimsnames[1:], dimsdata[1:], idx):\n            fmt = getattr(dim, \"outputformat\", \"%.16e\")\n            sweepvars.append((iname, fmt, dim[i]))", "        for iname, dim, i in zip(dimsnames[1:], dimsdata[1:], idx):\n            fmt = getattr(dim, \"outputformat\", \"%.16e\")\n            sweepvars.append((iname, fmt, dim[enum % len(dim)]))")
w("C14", CO, "            columns = dimsdata[:1] + [col[(slice(None), ) + idx]\n                                      for col in data.vardata.values()]", "            columns = dimsdata[:1] + [col[(slice(None), ) + idx[:col.ndim - 1]]\n                                      for col in data.vardata.values()][::1]")
w("C14", CO, "    for v in datablock.values():\n        dbs.append(v)", "    for k, v in datablock.items():\n        if len(k) <= 3:\n            dbs.append(v)")
w("C14", CO, "            used_ivars = used_ivars.union(names)\n        else:", "            used_ivars = used_ivars.union(names + dimsnames[1:])\n        else:")
w("C14", SP, "                    output[varname] = np.array(output[varname],\n                                               order=\"F\").T", "                    output[varname] = np.array(output[varname]).reshape(-1, len(data))")
w("C14", SP, "                    repdim = DimRep(\"rep\", output[x].shape[1])", "                    repdim = DimRep(\"rep\", output[x].shape[0])")
w("C14", SP, "                    data = [float(db.comments.property[vname])]", "                    data = [round(float(db.comments.property[vname]), 9)]")
w("C14", SP, "            for v in remove:\n                del db.comments.property[v]", "            db.comments.property.clear()")
w("C15", SP, "            if any(Nhead != len(row) for row in data):", "            if data and Nhead != len(data[0]):")
w("C15", SP, "            if any(Nhead != len(row) for row in data):", "            if any(Nhead > len(row) for row in data):")
w("C15", SP, "                except StopIteration:\n                    raise SPDataIOError(\"File can not end in comments\")", "                except StopIteration:\n                    return")
w("C15", SP, "            else:\n                raise SPDataIOError(\"Missing header\")", "            elif comments:\n                raise SPDataIOError(\"Missing header\")")
w("C27", CO, "        for k, v in comment.property.items():\n            self.property[k] = v", "        for k, v in comment.property.items():\n            self.property.setdefault(k, v)")
w("C27", CO, "                value = convert([string_number_with_unit_to_value,\n                                 to_numeric,", "                value = convert([to_numeric,\n                                 string_number_with_unit_to_value,")
w("C27", "dataset/comments.py", "        comment = comment.lstrip(\"!\").strip()\n        if comment:", "        comment = comment.strip(\"!\").strip()\n        if comment:")
w("C27", "dataset/comments.py", "                self.property[key] = v\n            self.fullcomments.append(comment)", "                self.property[key] = v\n                self.fullcomments.append(comment)")
w("C27", "dataset/comments.py", "                value = convert([convert_with_unit], unit, value)\n            except ValueError:\n                pass", "                value = convert([convert_with_unit], unit.strip(), value)\n            except ValueError:\n                value = value.strip()")
w("C27", "dataset/comments.py", "    for convfun in convertors:\n        try:\n            return convfun(*vars)\n        except ValueError:\n            pass\n    raise ValueError", "    for convfun in convertors:\n        try:\n            result = convfun(*vars)\n        except ValueError:\n            continue\n        if result:\n            return result\n    raise ValueError")
w("C18", CO, "    for trfunk in [meantr, stdtr]:\n        for old in out.vardata:\n            new = trfunk(old)\n            if new == old:\n                pass\n            elif new in out.vardata:", "    for trfunk in [meantr, stdtr]:\n        for old in out.vardata:\n            new = trfunk(old)\n            if new == old:\n                pass\n            elif new in data.ivardata:")
w("C10", DS, "                    if (k not in self.vardata) and (k not in self.ivardata):", "                    if k not in self.ivardata:")
w("C10", DS, "            if isinstance(guessunit, string_types):\n                varnames = [guessunit]", "            if isinstance(guessunit, string_types):\n                varnames = guessunit.split(\",\")")
w("C10", DS, "                if varname in self and self[varname].unit is None:", "                if varname in self and not self[varname].unit and unit:")
# -- second batch: text formats, readbase, merge, config
CI = "file_formats/citi.py"
MD = "file_formats/mdif.py"
TS = "file_formats/touchstone.py"
RB = "file_formats/readbase.py"
ME = "file_formats/merge.py"
CF = "file_formats/config.py"
w("C14", CI, "                                       np.linspace(float(start),\n                                                   float(stop),\n                                                   int(step)))",
  "                                       np.linspace(float(start),\n                                                   float(stop),\n                                                   int(step),\n                                                   endpoint=N != 1 and int(step) <= N))")
w("C14", CI, "        dims = tuple(block.ivardata[i[0]] for i in varnames)", "        dims = tuple(v for v in block.ivardata.values())")
w("C14", CI, "            out.append(float(r) * np.exp(float(i) / 180 * pi * 1j))", "            out.append(abs(float(r)) * np.exp(float(i) / 180 * pi * 1j))")
w("C14", CI, "                        values.append(value[..., i, j])", "                        values.append(value[..., j, i])")
w("C14", CI, "                    for rad in val.flat:\n                        yield fmt % (rad.real, rad.imag)", "                    for rad in val.flat:\n                        yield fmt % (rad.real, abs(rad.imag))")
w("C14", CI, "                if iscomplexobj(value):\n                    yield \"DATA %s RI\" % (n)", "                if iscomplexobj(value) and value.imag.any():\n                    yield \"DATA %s RI\" % (n)")
w("C15", CI, "            One(\"DATA_LIST_END\", \"Missing END\")(stream)", "            Optional(\"DATA_LIST_END\")(stream)")
w("C15", CI, "            datalist.shape = shape\n", "            datalist = datalist[:int(np.prod(shape))]\n            datalist.shape = shape\n")
w("C27", CI, "            if com.startswith(\"CONSTANT TIME\"):", "            if com.startswith(\"CONSTANT\"):")
w("C26", MD, "        dr = self.get_real(stream)\n        di = self.get_real(stream)\n        d = dr + 1j * di", "        d = self.get_real(stream)\n        if stream:\n            d = d + 1j * self.get_real(stream)")
w("C15", MD, "                if linedata:\n                    msg = \"More values than variables in header: %r\"\n                    raise MDIFError(msg % (linedata,))\n            if not datastream:\n                break",
  "            if linedata:\n                msg = \"More values than variables in header: %r\"\n                raise MDIFError(msg % (linedata,))\n            if not datastream:\n                break")
w("C26", MD, "                        objs.setdefault(k, []).append(v)", "                        objs.setdefault(k, []).insert(0, v)")
w("C10", MD, "                        for a in v:\n                            a[\"FILENAME\"] = hfarray(fname)", "                        v[0][\"FILENAME\"] = hfarray(fname)")
w("C15", MD, "            except StopIteration:\n                raise MDIFError(\"Unexpected end of file\")", "            except StopIteration:\n                return")
w("C26", MD, "        if varname.startswith(\"SWEEP.\"):\n            varname = varname[len(\"sweep.\"):]\n        if vartype == \"real\":\n            value = float(value)\n        else:\n            raise Exception(\"%r not an implemented var type\" % vartype)\n        i = DimPartial(varname, np.array([value]))",
  "        varname = varname.split(\".\")[-1]\n        if vartype == \"real\":\n            value = float(value)\n        else:\n            raise Exception(\"%r not an implemented var type\" % vartype)\n        i = DimPartial(varname, np.array([value]))")
w("C26", MD, "            X.shape = X.shape[:1] + (len(I), len(J))", "            X.shape = X.shape[:1] + (len(J), len(I))")
w("C26", MD, "            a = [(i, j) for x, i, j, y in value]\n            a.sort()", "            a = [(i, j) for x, i, j, y in value]\n            a.sort(key=str)")
w("C26", MD, "            idx = min([db.vardata.order.index(\"%s[%s,%s]\" % (matrix, i, j))", "            idx = max([db.vardata.order.index(\"%s[%s,%s]\" % (matrix, i, j))")
w("C10", MD, "                if guess_unit:\n                    res[k].guess_units()", "                res[k].guess_units()")
w("C26", MD, "        self.parse_stream = []\n        for headline in header:\n            self.parse_stream.append([])", "        self.parse_stream = []\n        for headline in header:\n            if headline in header[:header.index(headline)]:\n                continue\n            self.parse_stream.append([])")
w("C14", TS, "                if rad[0] <= output[-1][0]:", "                if rad[0] < output[-1][0]:")
w("C14", TS, "    if fn is not None and len(f) == len(fn) and np.allclose(f, fn):", "    if fn is not None and len(f) == len(fn):")
w("C14", TS, "    if fn is not None:\n        fn = fn * freqmultdict[freq_mult]", "    if fn is not None and fn.max() < f.max():\n        fn = fn * freqmultdict[freq_mult]")
w("C15", TS, "                if info is None:\n                    info = rad\n                else:", "                if info is None or info == rad:\n                    info = rad\n                else:")
w("C15", TS, "    if current_row:\n        return None, None\n    return output, noise", "    if current_row and not output:\n        return None, None\n    return output, noise")
w("C14", TS, "    elif out.shape[1] == 4:\n        out.shape = (out.shape[0], 2, 2)\n        out = out.transpose(0, 2, 1)\n    else:\n        N = int(sqrt(out.shape[1]))\n        out.shape = (out.shape[0], N, N)",
  "    else:\n        N = int(sqrt(out.shape[1]))\n        out.shape = (out.shape[0], N, N)\n        if N % 2 == 0:\n            out = out.transpose(0, 2, 1)")
w("C14", TS, "        db.Rn = hfarray(noisedata[..., -1], dims=noisedims) * z0", "        db.Rn = hfarray(noisedata[..., -1], dims=noisedims) * (z0 if z0 > 1 else 50)")
w("C15", TS, "                    if N == 9:  # N==9 when two-port\n                        noise, _ = _process_data(data[idx:], 5)\n                        if noise:\n                            return output, noise\n                    return None, None",
  "                    if N == 9:  # N==9 when two-port\n                        noise, _ = _process_data(data[idx:], 5)\n                        return output, noise\n                    return None, None")
w("C10", RB, "            if vname in dataset:\n                pass  # Already scalar data present\n            else:\n                dataset[vname] = (dataset[alt[\"Mag\"][-1]] *",
  "            if vname in dataset.ivardata:\n                pass  # Already scalar data present\n            else:\n                dataset[vname] = (dataset[alt[\"Mag\"][-1]] *")
w("C10", RB, "            newdim = olddim.__class__(olddim, name=vname,\n                                      data=olddim.data * mul, unit=unit)", "            newdim = olddim.__class__(olddim, name=vname, unit=unit)")
w("C10", RB, "            db.rename(varname, vname)\n            db[vname] = db[vname] * mul\n            db[vname].unit = unit", "            db.rename(varname, vname)\n            if mul > 1:\n                db[vname] = db[vname] * mul\n            db[vname].unit = unit")
w("C10", RB, "    for i, j, elemname in sorted(elem_tuples):", "    for i, j, elemname in elem_tuples:")
w("C10", RB, "    if len(i_idx) * len(j_idx) != len(elems):\n        return None, None, None", "    if len(i_idx) * len(j_idx) > len(elems) + 1:\n        return None, None, None")
w("C10", RB, "        self.file_index += 1\n        return blocks", "        if isinstance(blocks, DataBlock):\n            self.file_index += 1\n        return blocks")
w("C10", RB, "                    for b in (res if isinstance(res, list) else [res]):\n                        if \"FILENAME\" not in b:\n                            b[\"FILENAME\"] = hfarray(fname)", "                    if not isinstance(res, list) and \"FILENAME\" not in res:\n                        res[\"FILENAME\"] = hfarray(fname)")
w("C10", RB, "                for f in filename:\n                    filenames.extend(glob(f))", "                for f in sorted(filename):\n                    filenames.extend(glob(f))")
w("C10", RB, "            matrices.update(match_matrix_elements(block.vardata.keys(),\n                                                  matcher))", "            matrices = match_matrix_elements(block.vardata.keys(), matcher)")
w("C10", RB, "    def push(self, token):\n        self.stream = chain([token], self.stream)", "    def push(self, token):\n        self.stream = chain(self.stream, [token])")
w("C10", RB, "        blocks = self._make_complex(blocks)\n        blocks = self._properties_to_vars(blocks)\n        blocks = self._guess_unit(blocks)", "        blocks = self._make_complex(blocks)\n        blocks = self._guess_unit(blocks)\n        blocks = self._properties_to_vars(blocks)")
w("C10", RB, "                return merge_blocks(blocks, hyper=self.hyper)", "                return merge_blocks(blocks)")
w("C10", RB, "            dtype = np.result_type(*[block[elem].dtype for elem in elems])\n            x = np.empty(shape + (len(i_indices) * len(j_indices),),", "            dtype = ex.dtype\n            x = np.empty(shape + (len(i_indices) * len(j_indices),),")
w("C18", ME, "        coord.sort()\n", "        coord.sort(key=lambda x: x[1])\n")
w("C18", ME, "    for i, int_i in zip(itertools.product(*[sorted(x) for x in uniq]),", "    for i, int_i in zip(itertools.product(*[list(x) for x in uniq]),")
w("C18", ME, "    if len(set(unit)) == 1:\n        unit = unit.pop()", "    if len(set(unit) - {None}) == 1:\n        unit = unit.pop()")
w("C18", ME, "        length = max(int(x[1].dtype.str[2:]) for x in association_list)", "        length = int(prototype.dtype.str[2:])")
w("C18", ME, "        proto_dtype = np.result_type(*[x[1].dtype for x in association_list])", "        proto_dtype = prototype.dtype")
w("C18", ME, "            if any(x.dims != v[0].dims for x in v):", "            if any(len(x.dims) != len(v[0].dims) for x in v):")
w("C18", ME, "                if len(v) != ri[0].data.shape[0]:", "                if len(v) > ri[0].data.shape[0]:")
w("C18", ME, "    for block in blocks:\n        if block.comments:\n            cmt.extend(block.comments)\n    db.comments = cmt", "    for block in blocks[::-1]:\n        if block.comments:\n            cmt.extend(block.comments)\n    db.comments = cmt")
w("C18", ME, "            db[k] = hfarray([x.data[0] for x in v],\n                            dims=dims, unit=v[0].unit)", "            db[k] = hfarray(sorted(x.data[0] for x in v),\n                            dims=dims, unit=v[0].unit)")
w("C18", ME, "            if v[0].dims and isinstance(v[0].dims[0], DimSweep):\n                value = value.reorder_dimensions(v[0].dims[0])", "            if v[0].dims:\n                value = value.reorder_dimensions(*v[0].dims)")
w("C18", ME, "    newshape = prototype.shape[:1] + innershape + prototype.shape[1:]", "    newshape = prototype.shape[:1] + innershape[::-1] + prototype.shape[1:]")
w("C18", ME, "    if len(p) != len(association_list):", "    if len(p) < len(association_list):")
w("C24", CF, "        dct = find_next_dict(self)\n        return dct is not None and key in dct", "        dct = find_next_dict(self)\n        return dct is not None and OrderedDict.__contains__(dct, key)")
w("C24", CF, "        self.dicts = dicts[::-1]", "        self.dicts = dicts")
w("C24", CF, "        out.parent = self.parent\n        return out", "        return out")
w("C24", CF, "    if d2 < dnow:\n        d2 = d2 + datetime.timedelta(days=1)", "    if t.hour < dnow.hour:\n        d2 = d2 + datetime.timedelta(days=1)")
w("C24", CF, "    if d2 < dnow:\n        d2 = d2 + datetime.timedelta(days=1)", "    if d2 < dnow:\n        d2 = d2.replace(day=d2.day + 1)")
w("C24", CF, "        out.append(u\"%.6f seconds\" % seconds)", "        out.append(u\"%d seconds\" % seconds)")
w("C24", CF, "        return dumper.represent_scalar(u'!sivalue', u'%s%s' % (data, data.unit))", "        return dumper.represent_scalar(u'!sivalue', u'%g%s' % (data, data.unit))")
w("C24", CF, "    def reload_settings(self):\n        self.clear()\n        try:\n            with io.open(self.filename, encoding=\"utf-8\") as stream:\n                self.update(yaml.load(stream, Loader=LexicalLoader))",
  "    def reload_settings(self):\n        try:\n            with io.open(self.filename, encoding=\"utf-8\") as stream:\n                self.update(yaml.load(stream, Loader=LexicalLoader))")
w("C24", CF, "            for value in self.values():\n                if isinstance(value, (LexicalScopeDict, LexicalScopeList)):\n                    value.parent = self", "            for value in self.values():\n                if isinstance(value, LexicalScopeDict):\n                    value.parent = self")
w("C24", CF, "            if isinstance(value, (LexicalScopeDict, LexicalScopeList)):\n                value.parent = out\n            out.append(value)", "            if isinstance(value, LexicalScopeDict):\n                value.parent = out\n            out.append(value)")
w("C24", CF, "    elif kind == \"ppb\":\n        return float(v) * 1e-9", "    elif kind == \"ppb\":\n        return float(v) * 1e-12")
w("C24", CF, "        if self.parent:\n            return key in self.parent\n        return False", "        return False")
w("C24", CF, "    hours = tremain // (3600)\n    tremain = tremain - hours * 3600", "    hours = tremain // (3600)\n    tremain = tremain - hours * 60")
w("C24", CF, "            if hasattr(v, \"convert_to_standard\"):\n                out[k] = v.convert_to_standard()", "            if isinstance(v, LexicalScopeDict):\n                out[k] = v.convert_to_standard()")
w("C11", CF, "        with io.open(filename, \"w\", encoding=\"utf-8\") as stream:\n            yaml.dump(dict(self), stream, Dumper=StandardDumper,", "        with io.open(filename, \"r+\", encoding=\"utf-8\") as stream:\n            yaml.dump(dict(self), stream, Dumper=StandardDumper,")
# -- third batch: numbers, networks, hdf5, plotting, units, helpers
MP = "networks/multiports.py"
SF = "networks/spar_functions.py"
NO = "networks/noise.py"
H2 = "file_formats/hdf5/v_02.py"
H1 = "file_formats/hdf5/v_01.py"
HH = "file_formats/hdf5/hdf5.py"
PL = "plotting/helper.py"
SM = "plotting/smith.py"
SI = "constants/si_units.py"
UT = "utils.py"
CM = "dataset/comments.py"
LG = "logger.py"
w("C25", MA, "    Z = np.asanyarray(z) / exp(1j * b)", "    Z = np.asanyarray(z) / (exp(1j * b) if deg else exp(1j * B / 2))")
w("C25", MA, "        x = x.copy()\n        x[abs(x) < threshold] = 0\n        return x", "        x = x.copy()\n        x[x < threshold] = 0\n        return x")
w("C05", MA, "        x = x.copy()\n        x[abs(x) < threshold] = 0\n        return x", "        if (abs(x) < threshold).all():\n            x = x.copy()\n        x[abs(x) < threshold] = 0\n        return x")
w("C25", MA, "    a0 = np.median(array(a.flat[0], copy=False))", "    a0 = np.median(array(a, copy=False))")
w("C25", MA, "    domega = (2 * pi * (freq[:-1] - freq[1:]))", "    domega = (2 * pi * abs(freq[:-1] - freq[1:]))")
w("C25", MA, "    idx0 = np.searchsorted(x[1:-1], xi)", "    idx0 = np.searchsorted(x, xi) - 1")
w("C25", MA, "    idx0 = np.searchsorted(x[1:-1], xi)", "    idx0 = np.searchsorted(x[:-1], xi)")
w("C23", MA, "    elif xi.max() > x.max():", "    elif xi.max() > 1.001 * x.max():")
w("C23", MA, "    if xi.min() < x.min():", "    if xi[0] < x[0]:")
w("C02", MA, "    dims = a.dims + (DimMatrix_i(\"i\", 2), DimMatrix_j(\"j\", 2),)", "    dims = a.dims + (DimMatrix_j(\"j\", 2), DimMatrix_i(\"i\", 2),)")
w("C25", MA, "    dtype = np.result_type(a.dtype, b.dtype, c.dtype, d.dtype)\n    res = zeros", "    dtype = np.result_type(a.dtype, d.dtype)\n    res = zeros")
w("C25", MA, "    Q = sqrt(abs(q)) * exp(1j * phase / 2)", "    Q = abs(sqrt(q)) * exp(1j * angle(sqrt(q)))")
w("C17", MA, "    A, B = make_same_dims(a, b)\n    res = np.einsum(\"...ij,...jk->...ik\", A, B)", "    A, B = make_same_dims(a, b)\n    res = np.einsum(\"...ij,...kj->...ik\", A, B)")
w("C25", MA, "        wid = min(i, aperture // 2, abs(len - i))", "        wid = min(i, aperture // 2, abs(len - i) + 1)")
w("C17", MP, "    A = inv(tau1 - matrix_multiply(a, tau2))\n    B = -sigma1", "    A = inv(tau1 - matrix_multiply(tau2, a))\n    B = -sigma1")
w("C17", MP, "        if (isinstance(data, self.__class__) and self.Z0 == data.Z0 and\n                Z0 in (None, data.Z0)):", "        if isinstance(data, self.__class__):")
w("C17", MP, "        a = SArray(self)\n        b = SArray(other)\n        return self.__class__(cascadeS(a, b))", "        a = SArray(self)\n        b = SArray(other)\n        return other.__class__(cascadeS(a, b))")
w("C17", MP, "        elif right is None:\n            return self.__class__(deembedleft(SArray(left),\n                                              SArray(self)))", "        elif right is None:\n            return self.__class__(deembedleft(SArray(self),\n                                              SArray(left)))")
w("C04", MP, "        self.Z0 = getattr(obj, \"Z0\", 50.)", "        self.Z0 = 50.")
w("C06", MP, "        data = self.view(type=hfarray, dtype=self.dtype)\n        out = self.__class__(data, dims=self.dims)", "        data = self.view(type=hfarray, dtype=self.dtype)\n        out = self.__class__(data, dims=self.dims, copy=False)")
w("C05", MP, "            # The converted values may not end up in the memory of *data*\n            copy = True\n", "            # The converted values may not end up in the memory of *data*\n")
w("C17", MP, "            if dtype is None and data.dtype.kind in \"biu\":", "            if dtype is None and data.dtype.kind in \"bi\":")
w("C17", MP, "        P = make_matrix(bmat([[v, -i], [v, i]]))", "        P = make_matrix(bmat([[v, i], [v, -i]]))")
w("C17", MP, "                   [0, 1, 0, 0],\n                   [0, 0, 0, -1.]])", "                   [0, 1, 0, 0],\n                   [0, 0, 0, 1.]])")
w("C17", MP, "        return hfarray(x, copy=False)[..., i, j]", "        return hfarray(x, copy=False)[..., j, i]")
w("C17", MP, "            out = self.__class__(data, copy=False)\n            out.Z0 = self.Z0\n            return out\n        else:", "            out = self.__class__(data, copy=False)\n            return out\n        else:")
w("C23", MP, "        if isinstance(data, YArray) and data.ismatrix():\n            if data.shape[-1] != data.shape[-2]:\n                raise", "        if isinstance(data, YArray) and data.ismatrix():\n            if data.shape[-1] < data.shape[-2]:\n                raise")
w("C17", MP, "    m[0, 1] = m[1, 0] = 1\n    return cls(SArray(m))", "    m[0, -1] = m[-1, 0] = 1\n    return cls(SArray(m))")
w("C17", SF, "    if rest:\n        return cascadeS(res, *rest)", "    if rest:\n        return cascadeS(res, *rest[::-1])")
w("C17", SF, "    res[..., 0, 0] = S1[..., 0, 0] - S2[..., 0, 0] * s1det", "    res[..., 0, 0] = S1[..., 0, 0] - S2[..., 0, 0] * s2det")
w("C17", SF, "    return deembedright(deembedleft(e1, S), e2)", "    return deembedright(deembedleft(e2, S), e1)")
w("C17", SF, "    Sm = matrix_multiply(b, inv(a))", "    Sm = matrix_multiply(inv(a), b)")
w("C17", SF, "        if lambda_max > 1:\n            out.append(s / lambda_max * (1 - delta))", "        if lambda_max > 1 + delta:\n            out.append(s / lambda_max * (1 - delta))")
w("C17", SF, "        s[s < 0] = 0\n", "        s[s < delta] = 0\n")
w("C05", SF, "    S = S.copy()\n    s12 = S[..., 0, 1]", "    s12 = S[..., 0, 1]")
w("C17", SF, "    S[..., 0, 1] = A12\n    S[..., 1, 0] = A12", "    S[..., 0, 1] = A12\n    S[..., 1, 0] = S12")
w("C17", SF, "    dtype = np.result_type(S1.dtype, S2.dtype)\n", "    dtype = S1.dtype\n")
w("C17", SF, "    neworder = tuple([x for x in X.dims if not isinstance(x, _DimMatrix)])\n    X = X.reorder_dimensions(*neworder)\n    e = e.reorder_dimensions(*neworder)\n    klass, dims = X.__class__, X.dims\n#    X, e = X.view(type=ndarray), X.view(type=ndarray)\n    denom = (e[..., 0, 1] * e[..., 1, 0] -\n             e[..., 0, 0] * e[..., 1, 1] +\n             e[..., 1, 1] * X",
  "    neworder = tuple([x for x in X.dims if not isinstance(x, _DimMatrix)])\n    X = X.reorder_dimensions(*neworder)\n    klass, dims = X.__class__, X.dims\n#    X, e = X.view(type=ndarray), X.view(type=ndarray)\n    denom = (e[..., 0, 1] * e[..., 1, 0] -\n             e[..., 0, 0] * e[..., 1, 1] +\n             e[..., 1, 1] * X")
w("C17", NO, "    out2 = out.conj()\n    return out2", "    out2 = out.conj() if out.dtype.kind == \"c\" and out.shape[0] > 1 else out\n    return out2")
w("C17", NO, "        C = k * Tamb * (eye - matrix_multiply(twoport, Hconj(twoport)))", "        C = k * Tamb * (eye - matrix_multiply(Hconj(twoport), twoport))")
w("C17", NO, "    dataset.CAm21 = 0.5 * (dataset.Fmin - 1) - dataset.Rn * dataset.Yopt\n    dataset.CAm12 = dataset.CAm21.conj()", "    dataset.CAm12 = 0.5 * (dataset.Fmin - 1) - dataset.Rn * dataset.Yopt\n    dataset.CAm21 = dataset.CAm12.conj()")
w("C17", NO, "        C[..., 1, 1] = C[..., 1, 1].real\n        if Tout:", "        if Tout:")
w("C17", NO, "        Yopt = np.sqrt(Gn / Rn + Ycor.real ** 2) - 1j * Ycor.imag", "        Yopt = np.sqrt(Gn / Rn + Ycor.real ** 2) + 1j * Ycor.imag")
w("C05", NO, "    dataset = dataset.copy()\n    dataset.S", "    dataset.S")
w("C12", H2, "        filehandle[ek].attrs[\"dimtype\"] = v.__class__.__name__\n        if v.unit:", "        filehandle[ek].attrs[\"dimtype\"] = v.__class__.__name__\n        if v.unit and v.unit != \"1\":")
w("C12", H2, "    db[key].attrs[\"dtype\"] = data_dtype.str", "    db[key].attrs[\"dtype\"] = data.dtype.str")
w("C12", H2, "    return x.replace(\"/\", \"\\\\\")", "    return x.replace(\"/\", \"_\")")
w("C12", H2, "            if \"dimtype\" in filehandle[k].attrs and uk not in db.ivardata:", "            if \"dimtype\" in filehandle[k].attrs and uk not in db.ivardata and len(filehandle[k]) > 1:")
w("C12", H2, "        if np.issubdtype(data.dtype, np.datetime64):\n            data = data.astype(np.uint64)\n        elif np.issubdtype(data.dtype, np.unicode_):\n            data = data.astype(h5py_string_dtype)\n    else:", "        if np.issubdtype(data.dtype, np.datetime64):\n            data = data.astype(np.uint32)\n        elif np.issubdtype(data.dtype, np.unicode_):\n            data = data.astype(h5py_string_dtype)\n    else:")
w("C12", H2, "            filehandle[ek].dims[idx].attach_scale(filehandle[ed])", "            filehandle[ek].dims[-1 - idx].attach_scale(filehandle[ed])")
w("C13", H2, "    idx = filehandle[expanddim.name][-1] + 1\n", "    idx = filehandle[expanddim.name].shape[0]\n")
w("C13", H2, "        if uk in db.ivardata or uk == expanddim.name:\n            continue\n        diskdata = filehandle[k]", "        if uk in db.ivardata or uk == expanddim.name or v.ndim < 2:\n            continue\n        diskdata = filehandle[k]")
w("C13", H2, "        s = (slice(None),) * ax + (diskdata.shape[ax] - 1,)", "        s = (slice(None),) * ax + (diskdata.shape[0] - 1,)")
w("C13", H2, "    if key not in filehandle.attrs or filehandle.attrs[key] != \"0.2\":", "    if key in filehandle.attrs and filehandle.attrs[key] != \"0.2\":")
w("C13", H2, "        if uk not in db.vardata:\n            raise ValueError(\"Variable %r missing in db, can not append\" % uk)\n", "        if uk not in db.vardata and k not in db.vardata:\n            raise ValueError(\"Variable %r missing in db, can not append\" % uk)\n        break\n")
w("C12", HH, "            if version == \"0.2\":\n                return v_02", "            if version >= \"0.1\":\n                return v_02")
w("C12", H1, "        db[k] = hfarray(np.array(v), dtype=datadtype, dims=dims, unit=unit)", "        db[k] = hfarray(np.array(v), dims=dims, unit=unit)")
w("C12", H1, "    if blockname.lower() == \"none\":\n        blockname = None", "    if blockname.lower().startswith(\"none\"):\n        blockname = None")
w("C12", H1, "        dset.attrs[r\"data\\unit\"] = cast_bytes(db[k].unit if db[k].unit is not None else \"None\")", "        dset.attrs[r\"data\\unit\"] = cast_bytes(data.unit if data.unit is not None else \"None\")")
w("C12", H1, "    if db.comments:\n        com =", "    if db.comments and db.comments.property:\n        com =")
w("C11", "file_formats/hdf5/helper.py", "        yield filehandle\n", "        with filehandle:\n            yield filehandle\n")
w("C22", PL, "                mag_square=lambda x, y: (x, hfarray(np.abs(y) ** 2,", "                mag_square=lambda x, y: (x, hfarray(np.real(y) ** 2,")
w("C22", PL, "                unwrapdeg=lambda x, y: (x, unwrap_phase(y, deg=True)),", "                unwrapdeg=lambda x, y: (x, unwrap_phase(y)),")
w("C22", PL, "        y = x + 1j * y\n        r = abs(y)", "        y = y + 1j * x\n        r = abs(y)")
w("C22", PL, "    return theta, r\n", "    return r, theta\n")
w("C22", PL, "            elif np.iscomplexobj(y):\n                xunit = yunit\n                lines", "            elif np.iscomplexobj(y):\n                lines")
w("C22", PL, "            if xunit:\n                self.set_xlabel_unit(xunit)\n            if yunit:\n                self.set_ylabel_unit(yunit)", "            if xunit:\n                self.set_xlabel_unit(xunit)\n            if yunit:\n                self.set_ylabel_unit(xunit)")
w("C22", PL, "            y = vars[0]\n            x = hfarray(y.dims[0])\n            vars = (x, y)\n            if self", "            y = vars[0]\n            x = hfarray(y.dims[-1])\n            vars = (x, y)\n            if self")
w("C22", PL, "            for dig in range(3):\n                digs = [abs((int((elem / div) * 10 ** dig) -\n                            (elem / div) * 10 ** dig)) for elem in self.locs]\n                if max(digs) < 0.001:", "            for dig in range(3):\n                digs = [abs((int((elem / div) * 10 ** dig) -\n                            (elem / div) * 10 ** dig)) for elem in self.locs]\n                if min(digs) < 0.001:")
w("C22", PL, "                    prefix = \"\"\n                    div = 1\n                    self.fmt", "                    prefix = \"\"\n                    self.fmt")
w("C22", PL, "        if unit is not None:\n            self._label_unit = unit\n        self.update_template()\n\n    def get_label_name_and_unit", "        if unit:\n            self._label_unit = self._label_unit or unit\n        self.update_template()\n\n    def get_label_name_and_unit")
w("C22", PL, "            if not line.get_label().startswith(\"_\"):\n                labels.append(line.get_label())\n                lines.append(line)", "            if not line.get_label().startswith(\"_\"):\n                labels.append(line.get_label())\n            lines.append(line)")
w("C22", PL, "        bbox.x1 += dw\n", "        bbox.x0 += dw\n")
w("C23", PL, "    if filename.splitext()[1].lower() != \".pdf\":", "    if filename.splitext()[1].lower() not in (\".pdf\", \"\"):")
w("C28", SM, "        if np.imag(z) >= 0:\n            return 1 + 0j", "        if np.real(z) >= 0:\n            return 1 + 0j")
w("C28", SM, "        return (1 - y) / (1 + y)", "        return (y - 1) / (1 + y)")
w("C28", SM, "    radius = abs(1 / (r + 1.))\n    t1 = t2 = None\n    if x1", "    radius = 1 / abs(r + 2.)\n    t1 = t2 = None\n    if x1")
w("C28", SM, "        t1, t2 = sorted((angle(c2 - c0, deg=True), angle(c1 - c0, deg=True)))\n    return MyCircle(x0, y0, radius, t1, t2)\n\n\ndef G", "        t1, t2 = angle(c1 - c0, deg=True), angle(c2 - c0, deg=True)\n    return MyCircle(x0, y0, radius, t1, t2)\n\n\ndef G")
w("C28", SM, "        x1, x2 = min(x1, x2), max(x1, x2)\n        z1 = complex(r, x1)", "        z1 = complex(r, x1)")
w("C28", SM, "    else:\n        if a < 0:\n            a += add", "    else:\n        if a <= 0:\n            a += add")
w("C16", SI, "        if unit == \"#\":\n            return 1, None", "        if unit == \"#\":\n            return 1, unit")
w("C16", SI, "    elif len(unit) >= 2 and unit[0] in siprefixes:", "    elif len(unit) == 2 and unit[0] in siprefixes:")
w("C16", SI, "        if unit[1:] in siunit_names:", "        if unit[1:].capitalize() in siunit_names:")
w("C16", SI, "                  T=1e012, P=1e015, E=1e018)", "                  T=1e012, P=1e015, E=1e017)")
w("C16", SI, "    return (value * 10 ** -(e - mul), e - mul)", "    return (m * 10 ** mul, e + mul)")
w("C16", SI, "    exponent = np.floor(np.log10(np.sign(x) * x))", "    exponent = np.round(np.log10(np.sign(x) * x))")
w("C16", SI, "        if number > 0:\n            num = \"inf\"", "        if number != 0:\n            num = \"inf\"")
w("C16", SI, "        value = float(res.group())\n", "        value = float(int(float(res.group())))\n")
w("C16", SI, "reg_value = re.compile(r\"[-+0-9.]+([eE][-+]?[0-9]+)?\")", "reg_value = re.compile(r\"[-+0-9.]+([eE][-]?[0-9]+)?\")")
w("C16", SI, "    unit = unit.strip()\n    if unit:\n        mul, unit = unit_to_multiplier(unit)", "    if unit:\n        mul, unit = unit_to_multiplier(unit)")
w("C16", SI, "                             digs=self.digs,\n", "                             digs=self.digs or 3,\n")
w("C16", "constants/waveguide.py", "    x[6] *= 1e9\n", "    x[6] *= 1e6\n")
w("C25", UT, "        return sorted(set(data.flat))", "        return sorted(set(data.flat), key=abs)")
w("C25", UT, "        if x not in out:\n            out.append(x)\n    return out", "        if not out or x != out[-1]:\n            out.append(x)\n    return out")
w("C25", UT, "    out[(x < atol) | (x < (rtol * x.max()))] = 0", "    out[(x < atol) & (x < (rtol * x.max()))] = 0")
w("C25", UT, "    out = np.array(x)\n    x = abs(x)", "    out = x\n    x = abs(x)")
w("C23", UT, "            except (ValueError, TypeError):\n                if error:\n                    raise", "            except (ValueError, TypeError):\n                if error and not value:\n                    raise")
w("C25", UT, "    ordered = sorted(list(map(split_num, lista)))\n    return [orig for _, orig in ordered]", "    ordered = dict((str(x[0]), x) for x in map(split_num, lista))\n    return [orig for _, orig in sorted(ordered.values())]")
w("C25", UT, "        if type(x) in (list, tuple):\n            nylista += flatten(x)", "        if type(x) in (list, tuple):\n            nylista += x")
w("C25", UT, "        return datetime.datetime.now().strftime(\"%Y%m%dT%H%M%S.%f\")[:-3]", "        return datetime.datetime.now().strftime(\"%Y%m%dT%H%M%S.%f\")[:-2]")
w("C27", CM, "        self.fullcomments.extend(comment.fullcomments)\n        for k, v in comment.property.items():\n            self.property[k] = v", "        for line in comment.fullcomments:\n            if line not in self.fullcomments:\n                self.fullcomments.append(line)\n        for k, v in comment.property.items():\n            self.property[k] = v")
w("C27", CM, "    value = \" \".join(value.strip().split())\n    if reg_datetime", "    value = value.strip()\n    if reg_datetime")
w("C27", CM, "        comment = comment.lstrip(\"!\").strip()", "        comment = comment.strip(\"! \\t\\r\\n\")")
w("C27", CM, "            for key, v in process_comment(comment).items():\n                self.property[key] = v\n            self.fullcomments.append(comment)", "            for key, v in process_comment(comment).items():\n                self.property[key] = v\n                self.fullcomments.append(comment)")
w("C27", CM, "        for convfun in convertors" if False else "    for convfun in convertors:\n        try:\n            return convfun(*vars)\n        except ValueError:\n            pass\n    raise ValueError", "    for convfun in convertors:\n        try:\n            return convfun(*vars)\n        except ValueError:\n            break\n    raise ValueError")
w("C27", CM, "            table.append((keyfmt % key, valuefmt % (value)))\n            key = \"\"", "            if value != \"\":\n                table.append((keyfmt % key, valuefmt % (value)))\n            key = \"\"")
w("C19", LG, "    if _stream_handler:\n        logger.removeHandler(_stream_handler)\n        _stream_handler = None", "    if _stream_handler:\n        logger.removeHandler(_stream_handler)")
w("C19", LG, "    if not _stream_handler:\n        _stream_handler = logging.StreamHandler(sys.stderr)\n        logger.addHandler(_stream_handler)", "    if not _stream_handler:\n        _stream_handler = logging.StreamHandler(sys.stderr)\n    logger.addHandler(_stream_handler)\n    logger.propagate = False")
w("C07", DM, "        self._data = tuple(flatten(dim_data))", "        self._data = list(flatten(dim_data))")
w("C07", DM, "            a = self.__class__(self.name, self.data[index], unit=self.unit,\n                               outputformat=self.outputformat)\n            return a\n        elif isinstance(index, np.ndarray):", "            a = self.__class__(self.name, self.data[index], unit=self.unit)\n            return a\n        elif isinstance(index, np.ndarray):")
w("C07", DM, "        if unit is not None:\n            dim_unit = unit", "        if unit:\n            dim_unit = unit")
w("C07", DM, "            dim_unit = Name.unit\n            dim_outputformat = Name.outputformat", "            dim_unit = None\n            dim_outputformat = Name.outputformat")
w("C07", DM, "        if isinstance(index, slice) and (index == slice(None, None, None)):\n            return self", "        if isinstance(index, slice) and index.start is None and index.stop is None:\n            return self")
w("C07", DM, "            d = np.asarray(self._data, np.dtype(\"datetime64[us]\"))", "            d = np.asarray(self._data, np.dtype(\"datetime64[s]\"))")
w("C01", DM, "class ComplexDerivAxis(_DerivAxis):\n    sortprio = 2002", "class ComplexDerivAxis(_DerivAxis):\n    sortprio = 2001")
w("C07", DM, "    def deriv_axis(self):\n        return self._deriv_axis(self)\n\n\nclass _DerivAxis", "    def deriv_axis(self):\n        return self._deriv_axis(self.name, self.data)\n\n\nclass _DerivAxis")

# -- fourth batch ------------------------------------------------------------
w("C27", CM, "        out.fullcomments = self.fullcomments[:]\n", "        out.fullcomments = [x for x in self.fullcomments if x]\n")
w("C18", ME, "    uniq = [set(x) for x in zip(*indices)]\n", "    uniq = [set(map(float, x)) for x in zip(*indices)]\n")
w("C18", ME, "    innerdims = tuple(DimRep(name, i) for name, i in zip(names, indices))\n", "    innerdims = tuple(DimRep(name, len(i)) for name, i in zip(names, indices))\n")
w("C18", ME, "        length = max(int(x[1].dtype.str[2:]) for x in association_list)\n", "        length = int(prototype.dtype.str[2:])\n")
w("C18", ME, "        coord.sort()\n", "")
w("C18", ME, "            if any(x.dims != v[0].dims for x in v):", "            if any(len(x.dims) != len(v[0].dims) for x in v):")
w("C18", ME, "    if len(set(unit)) == 1:\n        unit = unit.pop()", "    if len(set(unit)) <= 2:\n        unit = unit.pop()")
w("C18", ME, "        partgroup = dimpartialgroups.setdefault(tuple(parts.keys()), {})", "        partgroup = dimpartialgroups.setdefault(tuple(sorted(parts)), {})")
w("C18", ME, "                if len(v) != ri[0].data.shape[0]:", "                if len(v) > ri[0].data.shape[0]:")
w("C14", RB, "    if vnames and len(i_idx) * len(j_idx) == len(vnames):", "    if vnames and len(i_idx) == len(j_idx):")
w("C14", RB, "        x[..., i_indices.index(i), j_indices.index(j), ] = val", "        x[..., i - 1, j - 1, ] = val")
w("C14", RB, "            x = np.empty(shape + (len(i_indices) * len(j_indices),),\n                         dtype=dtype)", "            x = np.empty(shape + (len(i_indices) * len(j_indices),),\n                         dtype=ex.dtype)")
w("C14", RB, "    for i, j, elemname in sorted(elem_tuples):", "    for i, j, elemname in elem_tuples:")
w("C14", RB, "                                  np.exp(np.pi / 180 * 1j *", "                                  np.exp(np.pi / 200 * 1j *")
w("C16", RB, "                                      data=olddim.data * mul, unit=unit)", "                                      data=olddim.data / mul, unit=unit)")
w("C14", RB, "            db[vname] = db[vname] * mul\n", "")
w("C15", TS, "            if rad[0] <= output[-1][0]:" if False else "                if rad[0] <= output[-1][0]:", "                if rad[0] < output[-1][0]:")
w("C15", TS, "    if current_row:\n        return None, None\n    return output, noise", "    return output, noise")
w("C14", TS, "        db.Rn = hfarray(noisedata[..., -1], dims=noisedims) * z0", "        db.Rn = hfarray(noisedata[..., 1], dims=noisedims) * z0")
w("C14", TS, "            if db.comments is not None:" if False else "    f = f * freqmultdict[freq_mult]\n    if fn", "    f = f * freqmultdict.get(freq_mult, 1)\n    if fn")
w("C14", TS, "    if fn is not None:\n        fn = fn * freqmultdict[freq_mult]\n", "    if fn is not None:\n        fn = fn * 1e9\n")
w("C14", TS, "                out.append(fmt % elem.real)\n                out.append(fmt % elem.imag)\n            fil", "                out.append(fmt % abs(elem))\n                out.append(fmt % elem.imag)\n            fil")
w("C14", TS, "                yield Token(\"Data\", lineno, rad.split(\"!\", 1)[0].strip())", "                yield Token(\"Data\", lineno, rad.rsplit(\"!\", 1)[0].strip())")
w("C10", RB, "                    filenames.extend(glob(f))", "                    filenames.extend(glob(f)[:1] if len(filename) > 1 else glob(f))")
w("C10", RB, "                return merge_blocks(blocks, hyper=self.hyper)", "                return merge_blocks(blocks, hyper=self.hyper and self.merge > 1)")
w("C10", RB, "        if self.guess_unit:\n            for db in blocks:\n                db.guess_units()\n", "        if self.guess_unit:\n            for db in blocks[:1]:\n                db.guess_units()\n")
w("C10", RB, "        for idx, fname in enumerate(filenames):", "        for idx, fname in enumerate(sorted(filenames)):")
w("C06", DS, "        out.ivardata = self.ivardata.copy()\n        out.xname = self.xname\n        out._outputformat = self._outputformat\n        return out\n\n    def view", "        out.ivardata = self.ivardata\n        out.xname = self.xname\n        out._outputformat = self._outputformat\n        return out\n\n    def view")
w("C08", DS, "                        self.ivardata[dim.name] = dim\n", "                        self.ivardata.setdefault(dim.name, dim)\n                    else:\n                        self.vardata[key] = value.replace_dim(dim, self.ivardata[dim.name]) or value\n")
w("C08", DS, "            if mname in self.vardata and not ismatrix(value):", "            if mname in self.vardata:")
w("C08", DS, "        for v in self.vardata.values():\n            v.replace_dim(olddim, newdim)", "        for v in self.vardata.values():\n            if olddim in v.dims:\n                v.replace_dim(olddim, newdim)\n                break")
w("C08", DS, "            newdim = olddim.__class__(olddim, name=newname)", "            newdim = DimSweep(olddim, name=newname)")
w("C08", DS, "                if np.issubclass_(newdim, DimBase)" if False else "                data = self.vardata[v].view()\n" if False else "        newdim = olddim.__class__(olddim, data=olddim.data[boolarray])", "        newdim = olddim.__class__(olddim.name, data=olddim.data[boolarray])")
w("C09", DS, "        if newname not in self.order:\n            self.order[self.order.index(oldname)] = newname\n", "        if newname not in self.order:\n            self.order.append(newname)\n")
w("C09", DS, "        for k in dict.keys(self):\n            if k not in out:\n                out.append(k)\n", "")
w("C13", H2, "    idx = filehandle[expanddim.name][-1] + 1\n    expand_dataset", "    idx = len(filehandle[expanddim.name]) + 1\n    expand_dataset")
w("C13", H2, "        s = (slice(None),) * ax + (diskdata.shape[ax] - 1,)", "        s = (slice(None),) * ax + (idx,)")
w("C13", H2, "        ax = diskdata.maxshape.index(None)\n", "        ax = diskdata.ndim - 1\n")
w("C12", H2, "            filehandle[ek].dims[idx].attach_scale(filehandle[ed])", "            filehandle[ek].dims[0].attach_scale(filehandle[ed])")
w("C12", H2, "    return x.replace(\"\\\\\", \"/\")", "    return x.replace(\"\\\\\", \"/\", 1)")
w("C17", MP, "    sigma1 = P[..., :n, n:]\n    tau2 = P[..., n:, :n]\n", "    tau2 = P[..., :n, n:]\n    sigma1 = P[..., n:, :n]\n")
w("C17", MP, "        return self.__class__(cascadeS(a, b))", "        return self.__class__(cascadeS(b, a))")
w("C17", MP, "            if Z0 is None:\n                self.Z0 = getattr(data, \"Z0\", None)\n            else:\n                self.Z0 = Z0\n", "            if Z0 is not None:\n                self.Z0 = Z0\n")
w("C17", MP, "            out = self.__class__(x, dims=self.dims, copy=False)\n            out.Z0 = self.Z0\n            return out\n        else:", "            out = self.__class__(x, dims=self.dims, copy=False)\n            return out\n        else:")
w("C21", MP, "            self._attrfuns = {}\n            names", "            names")
w("C25", MA, "    idx0 = np.searchsorted(x[1:-1], xi)\n", "    idx0 = np.searchsorted(x[1:-1], xi, side=\"right\")\n    idx0 = np.maximum(idx0 - 1, 0)\n")
w("C25", MA, "        wid = min(i, aperture // 2, abs(len - i))", "        wid = min(i, aperture // 2, len)")
w("C25", MA, "    elif xi.max() > x.max():", "    elif xi.max() > x[-1]:")
w("C25", MA, "    result2 = np.where(array(add_neg), array(result1 - 2 * pi), array(result1))", "    result2 = np.where(array(add_neg), array(result - 2 * pi), array(result1))")
w("C02", MA, "    result = det(A)\n    result = hfarray(result, dims=A.dims[:-2])", "    result = det(A)\n    result = hfarray(result, dims=A.dims[-2:])")
w("C02", MA, "    res = np.einsum(\"...ij,...jk->...ik\", A, B)\n    return hfarray(res, dims=A.dims)", "    res = np.einsum(\"...ij,...jk->...ik\", A, B)\n    return hfarray(res, dims=a.dims)")
w("C25", MA, "    Q = sqrt(abs(q)) * exp(1j * phase / 2)", "    Q = sqrt(abs(q)) * exp(1j * (phase % (2 * pi)) / 2)")
w("C24", CF, "    if d2 < dnow:\n", "    if d2.hour < dnow.hour:\n")
w("C24", CF, "        self.dicts = dicts[::-1]\n", "        self.dicts = dicts\n")
w("C24", CF, "            for value in self.values():\n                if isinstance(value, (LexicalScopeDict, LexicalScopeList)):\n                    value.parent = self\n", "            for value in self.values():\n                if isinstance(value, LexicalScopeDict):\n                    value.parent = self\n")
w("C24", CF, "    tremain = tremain - hours * 3600\n", "    tremain = tremain - hours * 360\n")
w("C16", CF, "        return float(num) * siprefixes[exp], unit\n", "        return float(num) * siprefixes.get(exp, 1.), unit\n")
w("C16", SI, "        if unit[1:] in siunit_names:", "        if unit[1:] in siunit_names and unit not in siunit_names and unit[0] != \"d\":")
w("C16", SI, "    exponent = np.floor(np.log10(np.sign(x) * x))", "    exponent = np.ceil(np.log10(np.sign(x) * x))")
w("C27", CM, "        if not self.property:\n            return []\n", "        if len(self.property) < 2:\n            return []\n")
w("C26", CO, "            sweepvars.append((iname, fmt, dim[i]))", "            sweepvars.append((iname, fmt, dim[0]))")
w("C14", CO, "        if enum:\n            comments = Comments()\n", "")
w("C14", CO, "                    fullheader.append(fmt_matrix % (colname, I + 1, J + 1))", "                    fullheader.append(fmt_matrix % (colname, i + 1, j + 1))")
w("C14", SP, "                                                order=\"F\").T" if False else "                    output[varname] = np.array(output[varname],\n                                               order=\"F\").T", "                    output[varname] = np.array(output[varname],\n                                               order=\"F\")")
w("C15", SP, "            if any(Nhead != len(row) for row in data):", "            if any(Nhead > len(row) for row in data):")
w("C15", SP, "            else:\n                raise SPDataIOError(\"Missing header\")\n", "")
w("C23", RB, "        if not filenames:\n            raise IOError(\"Pattern %r did not match any files\" % filename)\n", "        if not filenames and not isinstance(filename, list):\n            raise IOError(\"Pattern %r did not match any files\" % filename)\n")
w("C11", "file_formats/hdf5/helper.py", "        with h5py.File(filehandle, mode=mode) as fil:\n            yield fil", "        fil = h5py.File(filehandle, mode=mode)\n        yield fil\n        fil.close()")
w("C11", "file_formats/hdf5/helper.py", "    if isinstance(filehandle, h5py.File):\n        yield filehandle\n", "    if isinstance(filehandle, h5py.File):\n        yield filehandle\n        filehandle.close()\n")
w("C05", DS, "            data = self.vardata[v].view()\n            try:\n                i = data.dims_index(boolarray.dims[0])", "            data = self.vardata[v]\n            try:\n                i = data.dims_index(boolarray.dims[0])")
w("C05", NO, "    dataset = dataset.copy()\n", "    dataset = dataset.view()\n")
w("C17", NO, "    dims[i_idx] = DimMatrix_i(dims[i_idx], name=\"i\")\n    dims[j_idx] = DimMatrix_j(dims[j_idx], name=\"j\")\n    out.dims = dims\n    out2 = out.conj()\n    return out2", "    dims[i_idx] = DimMatrix_i(dims[i_idx], name=\"i\")\n    dims[j_idx] = DimMatrix_j(dims[j_idx], name=\"j\")\n    out.dims = dims\n    return out")
w("C17", NO, "        C = k * Tamb * (eye - matrix_multiply(twoport, Hconj(twoport)))", "        C = k * Tamb * (eye - matrix_multiply(Hconj(twoport), twoport))")
w("C10", SP, "                                      hyper=hyper,\n                                      encoding=encoding)", "                                      encoding=encoding)")
if __name__ == "__main__":
    import os
    import shutil
    import subprocess
    import sys
    from concurrent.futures import ThreadPoolExecutor
    HERE = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [HERE, os.path.dirname(HERE)]
    import fast

    def one(i):
        d = fast.tree("wild", i)
        try:
            r = subprocess.run(
                [sys.executable, os.path.join(HERE, "..", "check.py"),
                 W[i][0]], env=dict(os.environ, VERIF_REPO=d,
                                    VERIF_EVID=d + "/ev"),
                capture_output=True, text=True)
        finally:
            shutil.rmtree(d)
        return i, r.returncode, r.stdout + r.stderr
    n = 0
    ids = [int(x) for x in sys.argv[1:] if x.isdigit()] or range(len(W))
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for i, rc, out in ex.map(one, ids):
            n += rc == 1
            if rc != 1 or "-v" in sys.argv:
                print(rc, i, W[i][0], W[i][2], W[i][3][-60:].strip(), "->",
                      W[i][4][-80:].strip())
                if rc not in (0, 1) or "-v" in sys.argv:
                    print(out[-600:])
    print("%d of %d" % (n, len(ids)))
