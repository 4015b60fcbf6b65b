"""Source of properties.jsonl and MANIFEST.json (python3 docs/gen.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism,
         technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, na=na))


BASE = ("Decides the structural clause named in the rule text (evidence "
        "coverage.explanation) on /repo's current source with no execution. "
        "Trusts: the value-flow engine's model of Python and of the numpy/"
        "h5py primitives it names, and that no code is injected at run time. "
        "An obligation the analysis cannot decide is listed as undecided in "
        "the evidence and is not counted as discharged. ")

prop("C01", "Binary operators align operands by dimension, not by position",
     "For every arithmetic, bitwise and equality operator between two arrays, "
     "operands are matched by their dimensions (name and kind), whatever the "
     "order, number or length of their axes: the result's dimensions are the "
     "union of both operands' dimensions and every element combines the "
     "entries with the same coordinates. The reflected operators give "
     "op(other, self) in that order. Only a plain scalar operand bypasses "
     "the matching.",
     ["inputs"], "all pairs of arrays, all dim orders and shapes, every "
     "operator and its reflection",
     "Unit tests try a few shapes whose axes mostly already agree; the "
     "guarantee is over every combination of dims and both operand orders.",
     ["hftools/dataset/arrayobj.py"],
     "check_instance -> make_same_dims -> dims_union/change_shape",
     "value-flow provenance of numpy operands + rational normal forms of "
     "operator results",
     "Per operator and path; equality of element values is numpy's.")
prop("C02", "Dimensions follow the data axes through every operation",
     "Reordering, transposing, squeezing, indexing (by integer, slice, list "
     "or mask), taking, inserting an axis, interpolating, reducing or "
     "cumulating an array returns an array whose dims describe exactly its "
     "axes: each axis of the result carries the dimension of the source axis "
     "it came from, with the same selection or order applied to that "
     "dimension's values, and no dimension for an axis that was removed. No "
     "array can be created with another number of dims than axes.",
     ["inputs"], "all arrays, all dim orders and lengths, all indices and "
     "axis arguments",
     "Tests label small arrays and mostly compare values; a mislabelled axis "
     "shows only for particular orders, lengths or index kinds.",
     ["hftools/dataset/arrayobj.py", "hftools/dataset/dataset.py",
      "hftools/math.py"],
     "every labelling site (constructor dims argument, dims store) is paired "
     "with the axis operation applied to its data",
     "axis-provenance analysis: the permutation/selection term applied to "
     "the data is compared with the one applied to the dims",
     "Values computed by numpy for the permuted data are numpy's.")
prop("C03", "Reductions act on exactly the named axes",
     "sum, mean, std, var, min, max, cumsum and cumprod compute numpy's "
     "operation of the same name on the array's own data over exactly the "
     "axes named (by number, negative number, name, dimension, dimension "
     "class meaning every dimension of that class, or a list of these), with "
     "dtype, ddof and keepdims honoured and numpy's defaults (all axes; axis "
     "0 for the cumulative ones; ddof 0). rss is the square root of the sum "
     "of the squared magnitudes over the axis. Naming an axis the array does "
     "not have raises, unless dimerror=False is given, which returns the "
     "array itself; looking up an absent or ambiguous dimension raises.",
     ["inputs"], "all arrays, axis specifications and option values",
     "Tests reduce small arrays over one or two axes; option and axis-kind "
     "combinations are not enumerated.",
     ["hftools/dataset/arrayobj.py"],
     "_hfarray reductions, multiple_axis_handler, axis_handler, dims_index",
     "value-flow provenance of the numpy call's receiver, axis and options, "
     "guard analysis of the error paths",
     "The reduction itself is numpy's.")
prop("C04", "Unit and output format survive array operations",
     "view, copy, reordering, transposing, taking along an axis, squeezing, "
     "indexing and inserting an axis keep the array's unit and output "
     "format; sum, mean, std, min, max and cumsum keep the unit. The block "
     "operations filter, sort, squeeze, interpolate, hyper and remove_rep, "
     "and the functions interpolate, remove_rep, remove_tail, change_shape "
     "and chop, keep those of every variable. When an array is constructed, "
     "an explicit unit or output format wins over the data's own, which wins "
     "over the default; an array made from a dimension takes the "
     "dimension's unit and format; numpy views inherit both.",
     ["inputs"], "all arrays, units, formats and operations",
     "Tests compare data and dims; metadata loss is visible only for arrays "
     "that carry a unit or format, on each path separately.",
     ["hftools/dataset/arrayobj.py", "hftools/dataset/dataset.py",
      "hftools/math.py"],
     "__new__, __array_finalize__ and every constructor call that relabels "
     "data",
     "attribute-provenance analysis of every construction site reaching a "
     "return or store",
     "numpy calling __array_finalize__ for views is trusted.")
prop("C05", "Operations leave their arguments unmodified",
     "No function or method other than the documented in-place ones "
     "(container mutators, setters, setup functions) changes data, dims, "
     "unit, outputformat, comments or contents of an argument or of the "
     "object it is called on, nor of an object reachable from them, whether "
     "directly or through a view.",
     ["inputs", "histories"], "every public function and method, every "
     "argument and aliasing pattern",
     "Tests compare results and rarely re-inspect the inputs; the claim is "
     "over all functions and every aliasing of views.",
     ["hftools/dataset", "hftools/networks", "hftools/math.py",
      "hftools/file_formats"],
     "views, np.asarray and copy=False constructors make stores reach the "
     "caller's arrays",
     "interprocedural may-alias / effect analysis against a frozen table of "
     "mutators",
     "Effects inside third-party code are modelled by a table.")
prop("C06", "Copies are complete and independent",
     "copy() of an array, data dictionary, data block or comment object "
     "returns an object that shares no mutable part with the original and "
     "carries every part of its state (data, independent variables, "
     "comments, block name, x-axis name, output format, key order). view() "
     "of a data block or dictionary gives new containers with the same "
     "state, so adding or removing variables in one does not affect the "
     "other.",
     ["histories", "inputs"], "all objects and all later modifications of "
     "either side",
     "Tests copy small objects and compare values; sharing only shows in "
     "later modification histories.",
     ["hftools/dataset/dataset.py", "hftools/dataset/comments.py",
      "hftools/file_formats/common.py", "hftools/dataset/arrayobj.py"],
     "copy()/view() methods and the Comments constructors",
     "alias analysis of values stored into the copy + completeness of "
     "state fields",
     "State fields per class are a frozen table.")
prop("C07", "Dimension objects are immutable values with consistent == and hash",
     "Once created, a dimension's name, values, unit and output format "
     "cannot be changed by any code of the library, and arrays handed out "
     "by a dimension are private copies. Dimensions that compare equal have "
     "equal hashes, equality requires same name, kind, values and unit, and "
     "a dimension derived from another one (by slicing, indexing, or "
     "constructing from it) keeps every attribute that is not explicitly "
     "overridden.",
     ["inputs", "histories"], "all dimensions, all derivation arguments, "
     "all histories of use as dict keys/set members",
     "Tests build a few dims; mutation through a shared dim or a hash/eq "
     "mismatch shows only for particular combinations.",
     ["hftools/dataset/dim.py", "hftools/dataset/dataset.py"],
     "DimBase stores an immutable tuple; no setters; derived construction "
     "copies fields",
     "field-effect (who-may-write) analysis, eq/hash field-set comparison, "
     "argument-resolution of the constructor",
     "One known finding: == ignores other's outputformat while hash uses it.")
prop("C08", "Data blocks keep variables and dimensions consistent",
     "Assigning a variable registers every dimension it uses under the "
     "dimension's name. Replacing or renaming a dimension, also when only "
     "its output format or unit changes, updates the table of independent "
     "variables at the same position and every variable using it. filter, "
     "sort, hyper, squeeze, interpolate and remove_rep store a result for "
     "every variable, computed from that same variable, apply the same "
     "selection (mask, sort order) to the dimension's values and to the "
     "data axis, and keep the axis order; filter and sort carry block name, "
     "comments and x name, squeeze block name and comments. Matrix element "
     "names such as S21 address the same element (row, column) for reading, "
     "writing and expanding. Units are guessed only where missing.",
     ["inputs", "histories"], "all blocks, dims, masks, sort keys and "
     "sequences of assignments",
     "Tests use blocks with one or two variables over the same dims; a "
     "variable that is dropped, or a dimension that is out of step with its "
     "axis, needs a particular mix of variables.",
     ["hftools/dataset/dataset.py"],
     "DataBlock.__setitem__, replace_dim, filter, sort, hyper, squeeze",
     "store-event pairing, must-pass analysis of loop bodies and comparison "
     "of selection terms",
     "numpy's take/boolean indexing/argsort are trusted.")
prop("C09", "The ordered dictionary keeps keys and order in step",
     "After any sequence of insertions, replacements, deletions, pops, "
     "renames, clears, copies and merges on the ordered data dictionary, "
     "iteration, keys(), values() and items() list exactly the stored keys, "
     "each once, in insertion order, paired with their own values. A rename "
     "keeps the position and value, and replacing an existing key keeps its "
     "position.",
     ["histories"], "all sequences of dictionary operations",
     "Tests run a few short sequences; the invariant quantifies over all "
     "histories.",
     ["hftools/dataset/dataset.py"],
     "DataDict.order mirrors dict contents",
     "inductive class-invariant check: each method's event sequence pairs "
     "dict and order updates",
     "Induction over public methods; direct writes to .order from outside "
     "are the caller's responsibility.")
prop("C10", "Reading options and file patterns are honoured by every reader",
     "read_data and every read_* function read each file matched by the name, "
     "pattern or list once, in order, number them FILEINDEX 0, 1, ... and "
     "store their FILENAME; read_data picks the reader by the file's marks "
     "and passes all options on. Each option does its step and only its own: "
     "make_complex combines Re/Im and Mag/Arg pairs into one variable, "
     "property_to_vars turns properties of the comments into variables, "
     "guess_unit guesses units and reads units and prefixes written in "
     "variable names (value and unit scaled together), normalize renames "
     "variables to their normal names, make_matrix collects complete sets of "
     "elements X[i,j] or Xij into one matrix with element (i, j) in row i, "
     "column j, merge merges the blocks; with an option off the step leaves "
     "the data as it is. A cached result is used unless it is missing or "
     "reread is asked for, and the data yielded by read_to_cache are saved. "
     "The parsers take every token once, in order, and give back one they "
     "can not use.",
     ["inputs", "configurations"], "all combinations of options, patterns "
     "and files",
     "Tests read single files with the default options; an option dropped "
     "on the way or a step done for the wrong option is only seen with that "
     "combination.",
     ["hftools/file_formats/readbase.py", "hftools/file_formats/__init__.py",
      "hftools/file_formats/common.py"],
     "read_data, ReadFileFormat.read_file/do_file and its steps, make_cplx, "
     "fix_unit, match_matrix_elements, Stream/One/ManyOptional",
     "normal-form summaries (effects with Boolean path conditions) of every "
     "function of the reading pipeline compared with their specification",
     "Functions rewritten beyond comparison are left undecided.")
prop("C11", "Files are closed on every exit; the caller's handles stay open",
     "Every file the library opens for reading or saving data, configuration "
     "or figures is closed again on every way out of the call, also when "
     "reading or writing raises half way. A file handle passed in by the "
     "caller is used but never closed. Functions that read open files "
     "read-only and functions that save open them for writing from scratch, "
     "so reading never alters a file and saving never leaves remains of an "
     "older one.",
     ["inputs", "faults"], "all call paths, all points where an exception "
     "can occur",
     "Tests do not raise half way through writing and do not look at open "
     "handles; a leak shows only on the failing path.",
     ["hftools/file_formats/", "hftools/py3compat.py",
      "hftools/plotting/helper.py"],
     "make_block_iterator, save_*, hdf5context, read_data",
     "ownership analysis of opened files over all exits",
     "Handles are followed through the functions of the package.")
prop("C12", "What is saved to HDF5 is what is read back",
     "For both HDF5 file versions, reading a file written by the library "
     "gives back every variable and dimension under its own name with the "
     "values stored (no change of precision, dates and strings included), "
     "the same unit, dtype and dimension class, and for version 0.2 the same "
     "outputformat (version 0.1: also block name and comments); the order of "
     "the dimensions of a variable is kept, every kind of dimension can be "
     "read back as what it was, and the version stored in a file selects the "
     "reader that belongs to the writer.",
     ["inputs"], "all data blocks",
     "Tests store a few data blocks; a key that differs between writer and "
     "reader, or a lossy cast, shows only for the attributes and types a "
     "test happens to use.",
     ["hftools/file_formats/hdf5/"],
     "save_hdf5_handle/read_hdf5_handle, v_01, version dispatch",
     "value-flow reduction of writer and reader to attribute schemas, "
     "compared with each other; class table resolution",
     "h5py is trusted to store what it is given.")
prop("C13", "Appending to HDF5 adds one sample to all variables, or nothing",
     "append_hdf5 either refuses (wrong version, a variable of the file "
     "missing in the data block) before anything in the file is changed, or "
     "grows the index by one entry with the value last + 1 and every "
     "variable by one slab, at the end of the axis that was left open when "
     "the file was saved, holding the values of the variable of that name.",
     ["inputs", "histories"], "all data blocks and sequences of appends",
     "Tests append once or twice with complete data.",
     ["hftools/file_formats/hdf5/v_02.py"], "append_hdf5, expand_dataset",
     "event-order and value-flow analysis of the append path",
     "Exceptions raised by h5py itself are outside.")
prop("C14", "Text formats: every field is read and written as the format says",
     "Touchstone: the frequency (and noise frequency) is the file's first "
     "column times the multiplier of the unit in the # line (HZ to PHZ, "
     "any case), the pairs of numbers are converted as RI, MA (degrees) or "
     "DB (20 log10, degrees), element order is column-wise for 2x2 and "
     "row-wise otherwise, Rn is scaled by the reference impedance, Fmin "
     "is converted from dB (10 log10), noise follows a two-port as five "
     "numbers per line; save_touchstone writes what its # line announces. "
     "CITI, MDIF and SP files: real/complex/magnitude-angle values are "
     "combined in the order they are written, declared and listed "
     "variables agree, matrix element (i, j) is written under the name "
     "with i+1, j+1 and read back to row i, column j, and default number "
     "formats keep 17 digits.",
     ["inputs"], "every file of the format and every data block",
     "Tests read a few files; a wrong multiplier, swapped pair or element "
     "order for a format, port count or unit not in the test files goes "
     "unseen.",
     ["hftools/file_formats/touchstone.py", "hftools/file_formats/citi.py",
      "hftools/file_formats/mdif.py", "hftools/file_formats/spdata.py",
      "hftools/file_formats/common.py", "hftools/file_formats/readbase.py"],
     "proc_info, process_data, save_touchstone, handle_data, "
     "format_citi_block, GetData, fmt_mdif_block, make_cplx, "
     "make_col_from_matrix, _make_matrix_from_block",
     "symbolic evaluation of the readers and writers to terms; closed forms "
     "compared as rational functions, element order from loop nesting and "
     "subscripts, writer and reader tables compared",
     "Decides the meaning of fields, not the float parsing or printing "
     "(N02).")
prop("C15", "Malformed measurement files are refused, never silently accepted",
     "Reading raises, instead of returning data, when: a Touchstone file has "
     "an invalid, a second or no # line, fields outside the known units and "
     "formats, neither three nor five of them, or numbers that do not fill "
     "complete rows for any number of ports; a CITI file has a line of no "
     "known kind, an unknown number type, lacks one of NAME, "
     "VAR_LIST_BEGIN/END, SEG_LIST_BEGIN/SEG/END, BEGIN or END, or a data "
     "list whose length does not fit the sweeps; an SP file lacks a header, "
     "ends in comments or header, or has any row whose number of columns "
     "differs from the header; an MDIF file lacks BEGIN or END, ends inside "
     "a block, has an untyped or unknown column, VAR or attribute type, or "
     "more values on a line than columns; no block is found in a file, a "
     "requested MDIF block does not exist, or a pattern matches no file. No "
     "handler in the readers swallows such an error, a failed number "
     "conversion or undecodable bytes.",
     ["inputs"], "every malformed file of the kinds listed",
     "Tests hold one or two bad files per format; accepting a truncated or "
     "ragged file yields plausible but wrong data.",
     ["hftools/file_formats/touchstone.py", "hftools/file_formats/citi.py",
      "hftools/file_formats/mdif.py", "hftools/file_formats/spdata.py",
      "hftools/file_formats/readbase.py"],
     "tokenize, group_blocks, parse_blocks, One/OneOf, _process_data, "
     "handle_data, GetData, do_file, read_file",
     "path conditions of every raise under the conditions of each malformed "
     "case; handler analysis",
     "Declared CITI point counts are not compared (the existing tests read "
     "files whose count is wrong).")
prop("C16", "SI units and prefixes scale values consistently",
     "Every SI prefix stands for its SI power of ten, in the parsing and in "
     "both printing tables, with each third power from -24 to 24 present "
     "once. A prefix is only split off when what follows is a known unit; "
     "the value that gets the base unit is multiplied by that prefix; the "
     "whole exponent of a number is read, and a unit in brackets is read "
     "without them. Formatting a number shows value*10**-e with the prefix "
     "of the same e, a multiple of three; greek selects the greek prefixes. "
     "Axis ticks are divided by the power of ten whose prefix is in the "
     "label.",
     ["inputs"], "all numbers, units and prefixes",
     "Tests sample a few prefixes and magnitudes; a wrong entry in a table "
     "or a wrong branch shows only for its own decade.",
     ["hftools/constants/si_units.py", "hftools/plotting/helper.py",
      "hftools/file_formats/readbase.py"],
     "siprefixes, unit_to_multiplier, _help_format_sci, format_number",
     "constant table resolution, decision-tree and closed-form comparison, "
     "regular-expression structure",
     "Rounding at exact powers of ten is outside.")
prop("C17", "Network conversions, cascading and noise obey their formulas",
     "For every multiport class the matrix P relates the port voltages and "
     "currents to the class's documented port quantities, and converting "
     "between representations applies inv(t1 - a t2)(a s2 - s1) from the "
     "source's P to the target's own P, each with its own reference "
     "impedance; Z and Y are inverse of each other. cascadeS gives the "
     "S-matrix of any number of twoports connected left to right; "
     "deembedleft, deembedright and deembed undo the cascade; the methods "
     "cascade and deembed convert to S, keep the operand order and return "
     "the class of self. An element name Xij addresses row i, column j. Z0 "
     "is carried by view, copy and indexing, and an explicit Z0 "
     "renormalises. Matrix product, inverse, determinant and solve act on "
     "the matrix axes. Noise parameters and the ABCD correlation matrix are "
     "inverse of each other, also through the Y representation; passive "
     "noise is 2kT(Y+Y^H) and kT(1-SS^H); correlation matrices transform as "
     "T C T^H; make_reciprocal makes S12 and S21 the same root of S12*S21.",
     ["inputs"], "all network parameters, sizes and reference impedances",
     "Tests compare a few matrices numerically, mostly reciprocal and "
     "symmetric twoports at 50 ohm; the formulas must hold as identities.",
     ["hftools/networks/multiports.py", "hftools/networks/spar_functions.py",
      "hftools/networks/noise.py", "hftools/math.py"],
     "cascadeS, deembed*, convert, P properties, NoisyTwoport",
     "polynomial value numbering: closed forms of the source compared as "
     "rational (and noncommutative) identities",
     "Exact arithmetic; rounding and singular matrices are outside.")
prop("C18", "Merging blocks keeps every sample at its own coordinates",
     "Merging data blocks gives a block in which the values of every partial "
     "dimension are stored in block order, entry n of each merged variable "
     "is the variable of block n, and the common dimensions keep their "
     "place; with hyper each sample is found at the values its block had for "
     "the partial dimensions. Blocks that lack a variable others have, whose "
     "axes differ, or that do not fill the hypercube are refused. Comments "
     "of all blocks are kept in order, the block name is the first block's, "
     "units are kept where they agree, the data type holds every block's "
     "values (also the longest string).",
     ["inputs"], "all lists of blocks, partial dimensions and orders",
     "Tests merge a few complete sets in sorted order; misplaced samples "
     "give plausible data.",
     ["hftools/file_formats/merge.py", "hftools/file_formats/mdif.py",
      "hftools/dataset/dataset.py"],
     "merge_blocks, merge_variable, association_list_in_hypercube_order, "
     "merge_blocks_do_hyper, simple_merge_blocks, DataBlock.hyper",
     "normal-form summaries (effects with Boolean path conditions) of the "
     "merging functions compared with their specification",
     "Functions rewritten beyond comparison are left undecided.")
prop("C19", "Logging on/off never duplicates or leaks handlers",
     "Whatever sequence of start_log and stop_log calls is made, at most one "
     "stream handler is attached by the library at any time; after "
     "stop_log none is attached, and after start_log exactly one is.",
     ["histories"], "all call sequences",
     "A test samples one or two sequences; the claim is over all.",
     ["hftools/logger.py"], "module level handler record",
     "typestate analysis of the handler variable",
     "Only the library's own handler is considered.")
prop("C20", "No path runs into undefined names, impossible calls, spent iterators",
     "In no function of the library, on any path: a name is used that is "
     "defined nowhere or is a local that was never assigned on the way (also "
     "in one arm of an if/else, in an error handler or in rarely used code "
     "such as printing or logging); an attribute of self or of a module of "
     "the library is read that nothing defines; a function, class or method "
     "of the library is called with arguments its signature cannot take; a "
     "zip, map, filter or generator object is indexed, measured with len or "
     "consumed a second time as if it were a list; StopIteration escapes "
     "inside a generator.",
     ["inputs"], "all paths of all functions",
     "Such a slip fails only when the path is taken; most error branches and "
     "rarely used options have no test.",
     ["hftools/"], "every function of the package",
     "scope resolution, definite-assignment dataflow and call/signature "
     "matching over the syntax tree",
     "Attributes of objects other than self and modules are not resolved; "
     "locals assigned in one arm of an if without else are taken as "
     "intended.")
prop("C21", "No hidden state is carried between calls",
     "Calling any library function or method leaves module-level tables, "
     "class-level attributes and default argument objects unchanged, so the "
     "result of a call depends only on its arguments, never on which calls "
     "were made before. Registering a unit guess, the warnings/log switches "
     "and entry-point registration are the only exceptions.",
     ["histories"], "all call histories",
     "Leaks of state only show in particular multi-call histories that "
     "isolated unit tests do not build.",
     ["hftools/"], "module variables, class attributes, mutable defaults",
     "interprocedural effect analysis on module/class/default objects",
     "Memoisation is accepted only when immutable and pure.")
prop("C22", "Plot projections draw the documented transform of the data",
     "For every projection name (db, db10, mag, mag_square, rad, deg, "
     "unwraprad, unwrapdeg, real, imag, groupdelay, cplxpolar, x-si and "
     "none) plotting (x, y) draws the documented transform of exactly this "
     "x and y: 20 or 10 log10|y|, |y|, |y|^2, the angle in radians or "
     "degrees, the unwrapped angle, real or imaginary part, group delay at "
     "the frequency midpoints, angle/magnitude. An explicit projection "
     "argument takes precedence over the axes' own; complex data without a "
     "projection is drawn as imaginary against real part. An axes class is "
     "registered for each name. The Smith chart maps z to (z-1)/(z+1) and y "
     "to (1-y)/(1+y), and its constant r, x, g and b circles have the "
     "centre and radius these maps give.",
     ["inputs"], "all data and projections",
     "Plot tests do not look at the drawn data.",
     ["hftools/plotting/helper.py", "hftools/plotting/smith.py"],
     "_projfun, HFAxes.plot, register_projection, Smith circles",
     "polynomial value numbering of the projection table against closed "
     "forms; term checks of the plot dispatch",
     "The drawing itself (matplotlib) is trusted.")
prop("C23", "Requests that cannot be met raise instead of returning something",
     "An error is raised, and nothing returned, when: a dimension is looked "
     "up that the array does not have, a reduction names an absent "
     "dimension or dimension class or (for a single axis) an ambiguous one; "
     "an array is created with a number of dims other than its number of "
     "axes, with dims and info both, or without dims for more axes than "
     "there are default dimensions; an index has several Ellipsis; a "
     "variable, matrix element or dimension absent from a data block is "
     "read, replaced or formatted; an independent variable is replaced, or "
     "a block filtered, sorted or interpolated, with an array of the wrong "
     "number of dimensions; interpolation is asked outside the data range, "
     "at missing points without interpolation, or in an unknown mode; "
     "two-port parameters are not 2x2, Y/Z conversion is not square, single "
     "elements are converted between parameter kinds; a text is no number "
     "with unit; blocks do not fill a hypercube; cumsum/cumprod get no "
     "axis.",
     ["inputs"], "every such request",
     "Tests try one bad argument per function; a request silently answered "
     "with the wrong axis or stale data is not noticed.",
     ["hftools/dataset/arrayobj.py", "hftools/dataset/dataset.py",
      "hftools/dataset/dim.py", "hftools/math.py",
      "hftools/networks/multiports.py", "hftools/networks/noise.py",
      "hftools/constants/si_units.py", "hftools/file_formats/merge.py"],
     "dims_index, axis_handler, multiple_axis_handler, hfarray.__new__, "
     "verify_dimension, DataBlock.*, interpolate",
     "path conditions of every raise evaluated on instances of each "
     "impossible request",
     "Length of a dim against its axis is not compared by the library (the "
     "existing tests pin that), so it is not part of this.")
prop("C24", "Configuration files: scoping, conversions and what is read back",
     "A key that a section of a LexicalConfig does not have is looked up in "
     "the enclosing sections up to the top level, through lists, and [], get "
     "and in agree; sections see later changes at the top level; copies keep "
     "their scope; merged dictionaries prefer the last one given. Values "
     "with SI prefixes and units, percent, ppm and ppb, time intervals, "
     "dates and times of day are converted as written (a time of day that "
     "has passed means tomorrow). Writing a configuration and reading it "
     "again gives equal values of the same kind. Rereading replaces all "
     "settings; a missing file is reported and gives an empty "
     "configuration.",
     ["inputs", "histories"], "all configuration files and nestings",
     "One test file is read; nesting through lists, copies and rewritten "
     "files are not tried.",
     ["hftools/file_formats/config.py"],
     "LexicalScopeDict, LexicalLoader, MergedDicts, LexicalConfig, Config, "
     "convert_si_value and the constructors and representers",
     "normal-form summaries (effects with Boolean path conditions) of the "
     "configuration classes compared with their specification; "
     "regular expressions as tables",
     "PyYAML's own parsing and quoting are trusted.")
prop("C25", "Numeric helpers obey their documented closed forms",
     "dB is 20 log10|x| and dBinv its inverse; dB-angle, magnitude-angle "
     "and real-imaginary pairs give the complex number they describe, with "
     "degrees meaning degrees; angle(x, deg, branch) is the argument of x "
     "in [branch, branch + one turn); unwrap_phase adds to the first angle "
     "the angles of successive quotients, along the chosen axis; "
     "continous_phase_sqrt squares to its argument; delay is minus the "
     "phase difference over 2 pi times the frequency difference, at the "
     "midpoints; linear interpolation and extrapolation are the line "
     "through the two bracketing samples; interpolate raises outside the "
     "range of the samples; chop zeroes only what is below the threshold.",
     ["inputs"], "all argument values",
     "Tests evaluate a handful of points, often symmetric ones where two "
     "formulas agree.",
     ["hftools/math.py"],
     "dB, angle, unwrap_phase, delay, linear_extrapolate, interpolate, chop",
     "polynomial value numbering: closed forms of the source compared with "
     "the documented ones",
     "Exact arithmetic; numpy's elementary functions are trusted.")
# ---------------------------------------------------------------------------
prop("C26", "MDIF blocks are read and written as the format says",
     "Every line is taken as comment, header, attribute, BEGIN, END, VAR or "
     "data by its first characters; a block is its comments, VARs, BEGIN, "
     "attributes, header lines, data lines and END. Columns are read in "
     "header order with the type the header gives (complex takes two "
     "numbers), rows may span several lines, the first column is the sweep, "
     "VARs become partial dimensions and attributes variables, both without "
     "their SWEEP. prefix. Complete sets X[i,j] and X[i] become matrices and "
     "vectors with element order kept, at the place of the first element. "
     "Blocks are collected by name, and merged per name in file order. "
     "save_mdif writes, for every combination of the outer dimensions, the "
     "VARs, the block's attributes, a typed header and one row per sweep "
     "point with exactly the variables having those dimensions.",
     ["inputs"], "every MDIF file and data block",
     "Only two tests of this format pass in this environment; multi-line "
     "rows, attributes, vectors and several block names are hardly sampled.",
     ["hftools/file_formats/mdif.py"],
     "ReadMDIFFileFormat, GetData, match_matrix_names, fmt_mdif_block, "
     "simple_merge_blocks",
     "normal-form summaries (effects with Boolean path conditions) of the "
     "MDIF reader and writer compared with their specification",
     "Functions rewritten beyond comparison are left undecided.")
prop("C27", "Comments are kept and give exactly the properties they state",
     "A comment object keeps the lines it is given, in order, and extending "
     "it by another appends the other's lines and takes over its "
     "properties. A line 'name [unit] : value' or 'name = value' gives the "
     "property name with the value as a number (scaled by the prefix, unit "
     "kept), as date and time, or as the text itself when it is neither; "
     "other lines give none. The first conversion that accepts the value is "
     "used. Turning properties into variables adds exactly those that are "
     "numbers, dates or text and never replaces a variable or dimension.",
     ["inputs"], "all comment lines",
     "Tests try some lines; units, dates and separators combine freely.",
     ["hftools/dataset/comments.py", "hftools/file_formats/common.py",
      "hftools/dataset/dataset.py"],
     "process_comment, convert, conv_date_time, Comments, "
     "values_from_property",
     "normal-form summaries (effects with Boolean path conditions) of the "
     "comment functions compared with their specification; regular "
     "expressions as tables",
     "Functions rewritten beyond comparison are left undecided.")
prop("C28", "Smith and polar grids lie where the impedance maps to",
     "z2gamma is (z-1)/(z+1) and y2gamma (1-y)/(1+y), with infinity going to "
     "1 and -1; constant r, x, g and b give circles with centres r/(r+1), "
     "(1, 1/x), -g/(g+1) and (-1, -1/b) and radii 1/|r+1|, 1/|x|, 1/|g+1| "
     "and 1/|b|, a straight line for x or b zero; arcs run between the "
     "images of the two end points, on the side asked for. smith_grid draws "
     "the upper, lower or all circles of the impedance or (standard=False) "
     "admittance chart, polar_grid circles and rays of the same half; the "
     "charts cover the unit circle with equal axes.",
     ["inputs"], "all impedances, limits and chart modes",
     "Drawing is hardly tested; a wrong centre or arc gives a plausible "
     "chart.",
     ["hftools/plotting/smith.py"],
     "z2gamma, y2gamma, RCircle, XCircle, GCircle, BCircle, MyCircle, "
     "smith_grid, polar_grid",
     "normal-form summaries of the grid functions compared with their "
     "specification",
     "matplotlib's drawing of arcs is trusted.")
prop("N01", "Numerical round trip through network parameter conversions",
     "Converting a network between any two parameter representations and "
     "back returns the original matrix up to rounding.",
     ["inputs"], "all well-conditioned matrices",
     "Tests sample matrices.",
     ["hftools/networks/multiports.py"], "convert via P matrices and solve",
     na="Quantifies over floating point results (conditioning, rounding) of "
        "matrix solves; no static argument in reach bounds them. The "
        "structural parts (port relation tables, Z0 carried) are C17.")
prop("N02", "Written numbers read back bit-identical",
     "Every finite value written with the default output format by a text "
     "writer and read back by the matching reader is bit-identical.",
     ["inputs"], "all finite doubles", "Tests sample values.",
     ["hftools/file_formats"], "%.16e formatting, float() parsing",
     na="Round-trip equality over run-time values of printf/float parsing; "
        "static analysis only decides the precision of the default format "
        "and the tables, not the equality.")
prop("N03", "Interpolation reproduces the sample points",
     "Interpolating a data set at its own sample points returns the stored "
     "values for every interpolation mode.",
     ["inputs"], "all data sets", "Tests sample data.",
     ["hftools/dataset/dataset.py", "hftools/math.py"],
     "interpolation kernels",
     na="A numerical result of interpolation kernels over run-time data; "
        "not visible in the shape of the code.")
