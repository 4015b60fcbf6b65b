"""Frozen tables: what the analysed interface is, and which parameters are
documented to be modified in place."""

MUTATORS = {
    'hftools.dataset.arrayobj._hfarray.replace_dim':
        ('self',),
    'hftools.dataset.arrayobj._hfarray.sum':
        ('out',),
    'hftools.dataset.arrayobj._hfarray.mean':
        ('out',),
    'hftools.dataset.arrayobj._hfarray.std':
        ('out',),
    'hftools.dataset.arrayobj._hfarray.var':
        ('out',),
    'hftools.dataset.arrayobj._hfarray.min':
        ('out',),
    'hftools.dataset.arrayobj._hfarray.max':
        ('out',),
    'hftools.dataset.arrayobj._hfarray.cumprod':
        ('out',),
    'hftools.dataset.arrayobj._hfarray.cumsum':
        ('out',),
    'hftools.dataset.comments.Comments.add_from_comment':
        ('self',),
    'hftools.dataset.comments.Comments.add_from_comments':
        ('self',),
    'hftools.dataset.comments.Comments.extend':
        ('self',),
    'hftools.file_formats.common.Comments.add_from_comment':
        ('self',),
    'hftools.file_formats.common.Comments.add_from_comments':
        ('self',),
    'hftools.file_formats.common.Comments.extend':
        ('self',),
    'hftools.dataset.dataset.DataDict.__delattr__':
        ('self',),
    'hftools.dataset.dataset.DataDict.__delitem__':
        ('self',),
    'hftools.dataset.dataset.DataDict.__setattr__':
        ('self',),
    'hftools.dataset.dataset.DataDict.__setitem__':
        ('self',),
    'hftools.dataset.dataset.DataDict.setdefault':
        ('self',),
    'hftools.dataset.dataset.DataDict.pop':
        ('self',),
    'hftools.dataset.dataset.DataDict.popitem':
        ('self',),
    'hftools.dataset.dataset.DataDict.clear':
        ('self',),
    'hftools.dataset.dataset.DataDict.rename':
        ('self',),
    'hftools.dataset.dataset.change_dim':
        ('ds',),
    'hftools.dataset.dataset.DataBlock.replace_dim':
        ('self',),
    'hftools.dataset.dataset.DataBlock.rename':
        ('self',),
    'hftools.dataset.dataset.DataBlock.values_from_property':
        ('self',),
    'hftools.dataset.dataset.DataBlock.__delitem__':
        ('self',),
    'hftools.dataset.dataset.DataBlock.__delattr__':
        ('self',),
    'hftools.dataset.dataset.DataBlock.__setitem__':
        ('self',),
    'hftools.dataset.dataset.DataBlock.__setattr__':
        ('self',),
    'hftools.dataset.dataset.DataBlock.set_outputformat':
        ('self',),
    'hftools.dataset.dataset.DataBlock.guess_units':
        ('self',),
    'hftools.file_formats.config.LexicalScopeDict.update':
        ('self',),
    'hftools.file_formats.config.LexicalConfig.reload_settings':
        ('self',),
    'hftools.file_formats.config.Config.reload_settings':
        ('self',),
    'hftools.file_formats.hdf5.v_02.create_dataset':
        ('db',),
    'hftools.file_formats.hdf5.v_02.expand_dataset':
        ('dataset',),
    'hftools.file_formats.hdf5.v_02.save_hdf5_handle':
        ('filehandle',),
    'hftools.file_formats.hdf5.v_02.append_hdf5':
        ('filehandle',),
    'hftools.file_formats.mdif.GetData.parse_data':
        ('datastream',),
    'hftools.file_formats.mdif.GetData.get_string':
        ('stream',),
    'hftools.file_formats.mdif.GetData.get_real':
        ('stream',),
    'hftools.file_formats.mdif.GetData.get_integer':
        ('stream',),
    'hftools.file_formats.mdif.GetData.get_complex':
        ('stream',),
    'hftools.file_formats.mdif.ReadMDIFFileFormat.proc_data':
        ('data', 'self'),
    'hftools.file_formats.mdif.ReadMDIFFileFormat.make_matrices':
        ('db',),
    'hftools.file_formats.mdif.fixnames':
        ('mdif',),
    'hftools.file_formats.readbase.Stream.push':
        ('self',),
    'hftools.file_formats.readbase.Stream.__next__':
        ('self',),
    'hftools.file_formats.readbase.Stream.next':
        ('self',),
    'hftools.file_formats.readbase.make_cplx':
        ('dataset',),
    'hftools.file_formats.readbase.fix_unit':
        ('db',),
    'hftools.file_formats.readbase.combine_elements_to_matrix':
        ('data',),
    'hftools.file_formats.readbase.ReadFileFormat.do_file':
        ('self',),
    'hftools.file_formats.readbase.ReadFileFormat._make_complex':
        ('blocks',),
    'hftools.file_formats.readbase.ReadFileFormat._guess_unit':
        ('blocks',),
    'hftools.file_formats.readbase.ReadFileFormat._combine_matrices':
        ('blocks',),
    'hftools.file_formats.readbase.ReadFileFormat._merge':
        ('blocks',),
    'hftools.file_formats.readbase.ReadFileFormat._make_matrix_from_block':
        ('block',),
    'hftools.file_formats.readbase.ReadFileFormat.make_block_complex':
        ('block',),
}

ENTRY = frozenset('''
hftools.constants.si_units.SIFormat.__init__
hftools.constants.si_units.SIFormat.__mod__
hftools.constants.si_units._help_format_sci
hftools.constants.si_units.convert_with_unit
hftools.constants.si_units.format_number
hftools.constants.si_units.mantissa
hftools.constants.si_units.string_number_with_unit_to_value
hftools.constants.si_units.unit_to_multiplier
hftools.dataset.arrayobj.Dims.__contains__
hftools.dataset.arrayobj.Dims.get_matching_dim
hftools.dataset.arrayobj.Dims.matching_index
hftools.dataset.arrayobj.DimsList.__contains__
hftools.dataset.arrayobj.DimsList.get_matching_dim
hftools.dataset.arrayobj.DimsList.matching_index
hftools.dataset.arrayobj._expand_diagonal
hftools.dataset.arrayobj._hfarray.T
hftools.dataset.arrayobj._hfarray.__abs__
hftools.dataset.arrayobj._hfarray.__add__
hftools.dataset.arrayobj._hfarray.__and__
hftools.dataset.arrayobj._hfarray.__array_finalize__
hftools.dataset.arrayobj._hfarray.__div__
hftools.dataset.arrayobj._hfarray.__eq__
hftools.dataset.arrayobj._hfarray.__getitem__
hftools.dataset.arrayobj._hfarray.__getslice__
hftools.dataset.arrayobj._hfarray.__mul__
hftools.dataset.arrayobj._hfarray.__neg__
hftools.dataset.arrayobj._hfarray.__new__
hftools.dataset.arrayobj._hfarray.__or__
hftools.dataset.arrayobj._hfarray.__pow__
hftools.dataset.arrayobj._hfarray.__radd__
hftools.dataset.arrayobj._hfarray.__rand__
hftools.dataset.arrayobj._hfarray.__rdiv__
hftools.dataset.arrayobj._hfarray.__repr__
hftools.dataset.arrayobj._hfarray.__rmul__
hftools.dataset.arrayobj._hfarray.__ror__
hftools.dataset.arrayobj._hfarray.__rpow__
hftools.dataset.arrayobj._hfarray.__rsub__
hftools.dataset.arrayobj._hfarray.__rtruediv__
hftools.dataset.arrayobj._hfarray.__rxor__
hftools.dataset.arrayobj._hfarray.__sub__
hftools.dataset.arrayobj._hfarray.__truediv__
hftools.dataset.arrayobj._hfarray.__xor__
hftools.dataset.arrayobj._hfarray.add_dim
hftools.dataset.arrayobj._hfarray.apply_outputformat
hftools.dataset.arrayobj._hfarray.copy
hftools.dataset.arrayobj._hfarray.cumprod
hftools.dataset.arrayobj._hfarray.cumsum
hftools.dataset.arrayobj._hfarray.dims
hftools.dataset.arrayobj._hfarray.dims_index
hftools.dataset.arrayobj._hfarray.help
hftools.dataset.arrayobj._hfarray.info
hftools.dataset.arrayobj._hfarray.info_index
hftools.dataset.arrayobj._hfarray.max
hftools.dataset.arrayobj._hfarray.mean
hftools.dataset.arrayobj._hfarray.min
hftools.dataset.arrayobj._hfarray.reorder_dimensions
hftools.dataset.arrayobj._hfarray.replace_dim
hftools.dataset.arrayobj._hfarray.rss
hftools.dataset.arrayobj._hfarray.squeeze
hftools.dataset.arrayobj._hfarray.std
hftools.dataset.arrayobj._hfarray.sum
hftools.dataset.arrayobj._hfarray.t
hftools.dataset.arrayobj._hfarray.take
hftools.dataset.arrayobj._hfarray.transpose
hftools.dataset.arrayobj._hfarray.var
hftools.dataset.arrayobj._hfarray.verify_dimension
hftools.dataset.arrayobj._hfarray.view
hftools.dataset.arrayobj.as_strided
hftools.dataset.arrayobj.axis_handler
hftools.dataset.arrayobj.change_shape
hftools.dataset.arrayobj.check_instance
hftools.dataset.arrayobj.diagonal_view
hftools.dataset.arrayobj.dims_union
hftools.dataset.arrayobj.expand_diagonals
hftools.dataset.arrayobj.get_new_anonymous_dim
hftools.dataset.arrayobj.hfarray.__new__
hftools.dataset.arrayobj.isfullcomplex
hftools.dataset.arrayobj.ismatrix
hftools.dataset.arrayobj.make_fullcomplex_array
hftools.dataset.arrayobj.make_matrix
hftools.dataset.arrayobj.make_same_dims
hftools.dataset.arrayobj.make_same_dims_list
hftools.dataset.arrayobj.make_vector
hftools.dataset.arrayobj.multiple_axis_handler
hftools.dataset.arrayobj.remove_rep
hftools.dataset.arrayobj.remove_tail
hftools.dataset.arrayobj.replace_dim
hftools.dataset.comments.Comments.__init__
hftools.dataset.comments.Comments.__repr__
hftools.dataset.comments.Comments.add_from_comment
hftools.dataset.comments.Comments.add_from_comments
hftools.dataset.comments.Comments.copy
hftools.dataset.comments.Comments.extend
hftools.dataset.comments.Comments.table
hftools.dataset.comments.conv_date_time
hftools.dataset.comments.convert
hftools.dataset.comments.process_comment
hftools.dataset.dataset.DataBlock.__contains__
hftools.dataset.dataset.DataBlock.__delattr__
hftools.dataset.dataset.DataBlock.__delitem__
hftools.dataset.dataset.DataBlock.__dir__
hftools.dataset.dataset.DataBlock.__getattr__
hftools.dataset.dataset.DataBlock.__getitem__
hftools.dataset.dataset.DataBlock.__init__
hftools.dataset.dataset.DataBlock.__repr__
hftools.dataset.dataset.DataBlock.__setattr__
hftools.dataset.dataset.DataBlock.__setitem__
hftools.dataset.dataset.DataBlock.__str__
hftools.dataset.dataset.DataBlock.allvarnames
hftools.dataset.dataset.DataBlock.blockname
hftools.dataset.dataset.DataBlock.copy
hftools.dataset.dataset.DataBlock.depvar_report
hftools.dataset.dataset.DataBlock.filter
hftools.dataset.dataset.DataBlock.format_table
hftools.dataset.dataset.DataBlock.guess_units
hftools.dataset.dataset.DataBlock.hyper
hftools.dataset.dataset.DataBlock.interpolate
hftools.dataset.dataset.DataBlock.ivar_report
hftools.dataset.dataset.DataBlock.keep_variables
hftools.dataset.dataset.DataBlock.outputformat
hftools.dataset.dataset.DataBlock.remove_rep
hftools.dataset.dataset.DataBlock.rename
hftools.dataset.dataset.DataBlock.replace_dim
hftools.dataset.dataset.DataBlock.report
hftools.dataset.dataset.DataBlock.set_outputformat
hftools.dataset.dataset.DataBlock.sort
hftools.dataset.dataset.DataBlock.squeeze
hftools.dataset.dataset.DataBlock.values_from_property
hftools.dataset.dataset.DataBlock.view
hftools.dataset.dataset.DataBlock.xname
hftools.dataset.dataset.DataBlock.xvalue
hftools.dataset.dataset.DataDict.__delattr__
hftools.dataset.dataset.DataDict.__delitem__
hftools.dataset.dataset.DataDict.__dir__
hftools.dataset.dataset.DataDict.__getattr__
hftools.dataset.dataset.DataDict.__init__
hftools.dataset.dataset.DataDict.__iter__
hftools.dataset.dataset.DataDict.__setattr__
hftools.dataset.dataset.DataDict.__setitem__
hftools.dataset.dataset.DataDict.clear
hftools.dataset.dataset.DataDict.copy
hftools.dataset.dataset.DataDict.items
hftools.dataset.dataset.DataDict.iteritems
hftools.dataset.dataset.DataDict.keys
hftools.dataset.dataset.DataDict.outputformat
hftools.dataset.dataset.DataDict.pop
hftools.dataset.dataset.DataDict.popitem
hftools.dataset.dataset.DataDict.rename
hftools.dataset.dataset.DataDict.setdefault
hftools.dataset.dataset.DataDict.values
hftools.dataset.dataset.DataDict.view
hftools.dataset.dataset.change_dim
hftools.dataset.dataset.convert_matrices_to_elements
hftools.dataset.dataset.interp1d
hftools.dataset.dataset.interpolate
hftools.dataset.dataset.is_matrix_name
hftools.dataset.dataset.subset_datablock_by_dims
hftools.dataset.dataset.yield_dim_consistent_datablocks
hftools.dataset.dim.DimBase.__eq__
hftools.dataset.dim.DimBase.__getitem__
hftools.dataset.dim.DimBase.__hash__
hftools.dataset.dim.DimBase.__hfarray__
hftools.dataset.dim.DimBase.__init__
hftools.dataset.dim.DimBase.__lt__
hftools.dataset.dim.DimBase.__repr__
hftools.dataset.dim.DimBase.copy
hftools.dataset.dim.DimBase.data
hftools.dataset.dim.DimBase.fullsize
hftools.dataset.dim.DimBase.name
hftools.dataset.dim.DimBase.outputformat
hftools.dataset.dim.DimBase.unit
hftools.dataset.dim._DerivAxis.diag_axis
hftools.dataset.dim._DerivAxis.indep_axis
hftools.dataset.dim._DiagAxis.deriv_axis
hftools.dataset.dim._DiagAxis.indep_axis
hftools.dataset.dim._DiagMeta.__init__
hftools.dataset.dim._IndepAxis.deriv_axis
hftools.dataset.dim._IndepAxis.diag_axis
hftools.dataset.dim.dims_has_complex
hftools.dataset.dim.flatten
hftools.dataset.dim.info_has_complex
hftools.dataset.helper.add_var_guess
hftools.dataset.helper.guess_unit_from_varname
hftools.file_formats.citi.ReadCITIFileFormat.make_block_complex
hftools.file_formats.citi.ReadCITIFileFormat.parse_blocks
hftools.file_formats.citi.ReadCITIFileFormat.tokenize
hftools.file_formats.citi.format_citi_block
hftools.file_formats.citi.handle_data
hftools.file_formats.citi.is_citi
hftools.file_formats.citi.read_citi
hftools.file_formats.citi.save_citi
hftools.file_formats.common.Comments.__init__
hftools.file_formats.common.Comments.__repr__
hftools.file_formats.common.Comments.add_from_comment
hftools.file_formats.common.Comments.add_from_comments
hftools.file_formats.common.Comments.copy
hftools.file_formats.common.Comments.extend
hftools.file_formats.common.Comments.table
hftools.file_formats.common.conv_date
hftools.file_formats.common.conv_date_time
hftools.file_formats.common.convert
hftools.file_formats.common.db_iterator
hftools.file_formats.common.format_complex_header
hftools.file_formats.common.format_elem
hftools.file_formats.common.format_unit_header
hftools.file_formats.common.get_dims_names
hftools.file_formats.common.make_block_iterator
hftools.file_formats.common.make_col_from_matrix
hftools.file_formats.common.normalize_names
hftools.file_formats.common.padhead
hftools.file_formats.common.process_comment
hftools.file_formats.common.remove_enclosing_function
hftools.file_formats.config.Config.__init__
hftools.file_formats.config.Config.reload_settings
hftools.file_formats.config.Config.write
hftools.file_formats.config.LexicalConfig.__init__
hftools.file_formats.config.LexicalConfig.reload_settings
hftools.file_formats.config.LexicalConfig.write
hftools.file_formats.config.LexicalLoader.construct_mapping
hftools.file_formats.config.LexicalLoader.construct_sequence
hftools.file_formats.config.LexicalLoader.construct_yaml_map
hftools.file_formats.config.LexicalLoader.construct_yaml_seq
hftools.file_formats.config.LexicalScopeDict.__contains__
hftools.file_formats.config.LexicalScopeDict.__getitem__
hftools.file_formats.config.LexicalScopeDict.__init__
hftools.file_formats.config.LexicalScopeDict.__repr__
hftools.file_formats.config.LexicalScopeDict.convert_to_standard
hftools.file_formats.config.LexicalScopeDict.copy
hftools.file_formats.config.LexicalScopeDict.get
hftools.file_formats.config.LexicalScopeDict.update
hftools.file_formats.config.LexicalScopeList.__init__
hftools.file_formats.config.LexicalScopeList.convert_to_standard
hftools.file_formats.config.MergedDicts.__contains__
hftools.file_formats.config.MergedDicts.__getitem__
hftools.file_formats.config.MergedDicts.__init__
hftools.file_formats.config.MergedDicts.copy
hftools.file_formats.config.MergedDicts.keys
hftools.file_formats.config.SIValue.__new__
hftools.file_formats.config.convert_or_none
hftools.file_formats.config.convert_si_value
hftools.file_formats.config.ensure_lexical
hftools.file_formats.config.ensure_standard
hftools.file_formats.config.find_next_dict
hftools.file_formats.config.lexical_scope_dict_representer
hftools.file_formats.config.lexical_scope_list_representer
hftools.file_formats.config.overrideint
hftools.file_formats.config.path_representer
hftools.file_formats.config.percentvalue_constructor
hftools.file_formats.config.shortdatetime_constructor
hftools.file_formats.config.sivalue_constructor
hftools.file_formats.config.sivalue_representer
hftools.file_formats.config.time_constructor
hftools.file_formats.config.timeintervall_constructor
hftools.file_formats.config.timeintervall_representer
hftools.file_formats.config.timestamp_representer
hftools.file_formats.hdf5.hdf5.is_hdf5
hftools.file_formats.hdf5.hdf5.read_hdf5
hftools.file_formats.hdf5.hdf5.save_hdf5
hftools.file_formats.hdf5.helper.hdf5context
hftools.file_formats.hdf5.v_01.read_hdf5
hftools.file_formats.hdf5.v_01.save_hdf5
hftools.file_formats.hdf5.v_01.unpack_dim
hftools.file_formats.hdf5.v_02.append_hdf5
hftools.file_formats.hdf5.v_02.cast_arrays_to_hdf5
hftools.file_formats.hdf5.v_02.create_dataset
hftools.file_formats.hdf5.v_02.escape_varname
hftools.file_formats.hdf5.v_02.expand_dataset
hftools.file_formats.hdf5.v_02.getvar
hftools.file_formats.hdf5.v_02.read_hdf5
hftools.file_formats.hdf5.v_02.read_hdf5_handle
hftools.file_formats.hdf5.v_02.save_hdf5
hftools.file_formats.hdf5.v_02.save_hdf5_handle
hftools.file_formats.hdf5.v_02.unescape_varname
hftools.file_formats.mdif.GetData.__init__
hftools.file_formats.mdif.GetData.get_complex
hftools.file_formats.mdif.GetData.get_integer
hftools.file_formats.mdif.GetData.get_real
hftools.file_formats.mdif.GetData.get_string
hftools.file_formats.mdif.GetData.parse_data
hftools.file_formats.mdif.GetData.parse_header
hftools.file_formats.mdif.GetData.sweep_name
hftools.file_formats.mdif.ReadMDIFFileFormat.__init__
hftools.file_formats.mdif.ReadMDIFFileFormat._merge
hftools.file_formats.mdif.ReadMDIFFileFormat.group_blocks
hftools.file_formats.mdif.ReadMDIFFileFormat.make_matrices
hftools.file_formats.mdif.ReadMDIFFileFormat.parse_blocks
hftools.file_formats.mdif.ReadMDIFFileFormat.proc_attrib
hftools.file_formats.mdif.ReadMDIFFileFormat.proc_data
hftools.file_formats.mdif.ReadMDIFFileFormat.proc_var
hftools.file_formats.mdif.ReadMDIFFileFormat.read_file
hftools.file_formats.mdif.ReadMDIFFileFormat.tokenize
hftools.file_formats.mdif.fixnames
hftools.file_formats.mdif.fmt_mdif_block
hftools.file_formats.mdif.is_matrix_name
hftools.file_formats.mdif.is_mdif
hftools.file_formats.mdif.is_vector_name
hftools.file_formats.mdif.loop_db
hftools.file_formats.mdif.make_block_args
hftools.file_formats.mdif.match_matrix_names
hftools.file_formats.mdif.read_mdif
hftools.file_formats.mdif.save_mdif
hftools.file_formats.mdif.shorten_name
hftools.file_formats.mdif.simple_merge_blocks
hftools.file_formats.merge.association_list_in_hypercube_order
hftools.file_formats.merge.get_partials
hftools.file_formats.merge.merge_blocks
hftools.file_formats.merge.merge_blocks_do_hyper
hftools.file_formats.merge.merge_blocks_to_association_list
hftools.file_formats.merge.merge_variable
hftools.file_formats.muwave_mat.build_data
hftools.file_formats.muwave_mat.build_meas_state
hftools.file_formats.muwave_mat.build_measmnt
hftools.file_formats.muwave_mat.is_muwave_matlabdata
hftools.file_formats.muwave_mat.make_real
hftools.file_formats.muwave_mat.read_muwave_matlabdata
hftools.file_formats.muwave_mat.read_single_muwave_matlabdata
hftools.file_formats.muwave_mat.reorder
hftools.file_formats.read_data
hftools.file_formats.read_from_cache
hftools.file_formats.read_to_cache
hftools.file_formats.readbase.ExpectEndOfFile
hftools.file_formats.readbase.ManyOptional
hftools.file_formats.readbase.One
hftools.file_formats.readbase.OneOf
hftools.file_formats.readbase.Optional
hftools.file_formats.readbase.ReadFileFormat.__init__
hftools.file_formats.readbase.ReadFileFormat._combine_matrices
hftools.file_formats.readbase.ReadFileFormat._guess_unit
hftools.file_formats.readbase.ReadFileFormat._make_complex
hftools.file_formats.readbase.ReadFileFormat._make_matrix_from_block
hftools.file_formats.readbase.ReadFileFormat._merge
hftools.file_formats.readbase.ReadFileFormat._normalize
hftools.file_formats.readbase.ReadFileFormat._properties_to_vars
hftools.file_formats.readbase.ReadFileFormat.combine_blocks
hftools.file_formats.readbase.ReadFileFormat.do_file
hftools.file_formats.readbase.ReadFileFormat.group_blocks
hftools.file_formats.readbase.ReadFileFormat.id_matrix_elements
hftools.file_formats.readbase.ReadFileFormat.make_block_complex
hftools.file_formats.readbase.ReadFileFormat.normalize_names
hftools.file_formats.readbase.ReadFileFormat.parse_blocks
hftools.file_formats.readbase.ReadFileFormat.read_file
hftools.file_formats.readbase.ReadFileFormat.tokenize
hftools.file_formats.readbase.Stream.__init__
hftools.file_formats.readbase.Stream.__iter__
hftools.file_formats.readbase.Stream.__next__
hftools.file_formats.readbase.Stream.next
hftools.file_formats.readbase.Stream.push
hftools.file_formats.readbase._matrix_elements
hftools.file_formats.readbase.combine_elements_to_matrix
hftools.file_formats.readbase.fix_unit
hftools.file_formats.readbase.get_outer_function
hftools.file_formats.readbase.make_cplx
hftools.file_formats.readbase.match_matrix_elements
hftools.file_formats.spdata.ReadSPFileFormat.group_blocks
hftools.file_formats.spdata.ReadSPFileFormat.parse_blocks
hftools.file_formats.spdata.ReadSPFileFormat.tokenize
hftools.file_formats.spdata.format_sp_block
hftools.file_formats.spdata.read_spdata
hftools.file_formats.spdata.save_spdata
hftools.file_formats.touchstone.ReadTouchstoneFileFormat.parse_blocks
hftools.file_formats.touchstone.ReadTouchstoneFileFormat.tokenize
hftools.file_formats.touchstone._process_data
hftools.file_formats.touchstone.format_touchstone_block
hftools.file_formats.touchstone.is_touchstone
hftools.file_formats.touchstone.proc_data
hftools.file_formats.touchstone.proc_info
hftools.file_formats.touchstone.process_data
hftools.file_formats.touchstone.read_touchstone
hftools.file_formats.touchstone.save_touchstone
hftools.logger.NULLHandler.emit
hftools.logger.start_log
hftools.logger.stop_log
hftools.math._unwrap_phase
hftools.math.angle
hftools.math.broadcast_matrices.__init__
hftools.math.broadcast_matrices.__iter__
hftools.math.chop
hftools.math.continous_phase_sqrt
hftools.math.dB
hftools.math.dB_angle_to_complex
hftools.math.dBinv
hftools.math.delay
hftools.math.det
hftools.math.firstelement
hftools.math.firstpos
hftools.math.flatten_non_matrix
hftools.math.get_dims_helper
hftools.math.get_shape_helper
hftools.math.interpolate
hftools.math.inv
hftools.math.linear_extrapolate
hftools.math.lstsq
hftools.math.mag_angle_to_complex
hftools.math.make_matrix
hftools.math.matrix_multiply
hftools.math.matrix_multiply_old
hftools.math.poly_smooth
hftools.math.poly_smooth_magphase
hftools.math.re_im_to_complex
hftools.math.smooth
hftools.math.smooth_magphase
hftools.math.solve_Ab
hftools.math.unwrap_phase
hftools.networks.multiports.ABCDArray.P
hftools.networks.multiports.ABCDArray.__init__
hftools.networks.multiports.GArray.P
hftools.networks.multiports.GArray.__init__
hftools.networks.multiports.HArray.P
hftools.networks.multiports.HArray.__init__
hftools.networks.multiports.SArray.P
hftools.networks.multiports.SArray.Z0
hftools.networks.multiports.SArray.__init__
hftools.networks.multiports.TArray.P
hftools.networks.multiports.TArray.__init__
hftools.networks.multiports.TpArray.P
hftools.networks.multiports.TpArray.__init__
hftools.networks.multiports.YArray.P
hftools.networks.multiports.YArray.__init__
hftools.networks.multiports.ZArray.P
hftools.networks.multiports.ZArray.__init__
hftools.networks.multiports._MultiPortArray.Z0
hftools.networks.multiports._MultiPortArray.__array_finalize__
hftools.networks.multiports._MultiPortArray.__getattr__
hftools.networks.multiports._MultiPortArray.__getitem__
hftools.networks.multiports._MultiPortArray.__init__
hftools.networks.multiports._MultiPortArray.__new__
hftools.networks.multiports._MultiPortArray.__setattr__
hftools.networks.multiports._MultiPortArray.cascade
hftools.networks.multiports._MultiPortArray.copy
hftools.networks.multiports._MultiPortArray.deembed
hftools.networks.multiports._MultiPortArray.ismatrix
hftools.networks.multiports._MultiPortArray.view
hftools.networks.multiports._TwoPortArray.__init__
hftools.networks.multiports.convert
hftools.networks.multiports.make_accessor
hftools.networks.multiports.make_matrix
hftools.networks.multiports.unit_matrix
hftools.networks.multiports.unit_smatrix
hftools.networks.noise.Hconj
hftools.networks.noise.NoisyTwoport.T
hftools.networks.noise.NoisyTwoport.__init__
hftools.networks.noise.NoisyTwoport.__repr__
hftools.networks.noise.NoisyTwoport.convert
hftools.networks.noise.NoisyTwoport.noise_parameters
hftools.networks.noise.from_noisepar
hftools.networks.noise.passive_noise
hftools.networks.spar_functions.cascadeS
hftools.networks.spar_functions.check_passive
hftools.networks.spar_functions.deembed
hftools.networks.spar_functions.deembedleft
hftools.networks.spar_functions.deembedright
hftools.networks.spar_functions.make_passive_eig
hftools.networks.spar_functions.make_passive_svd
hftools.networks.spar_functions.make_reciprocal
hftools.networks.spar_functions.switch_correct
hftools.plotting.helper.ComplexAxes.__init__
hftools.plotting.helper.ComplexPolarAxes.plot
hftools.plotting.helper.DegAxes.__init__
hftools.plotting.helper.DegAxes.set_ylabel_fmt
hftools.plotting.helper.GroupDelayAxes.__init__
hftools.plotting.helper.HFToolsAxes.__init__
hftools.plotting.helper.HFToolsAxes._plot_helper
hftools.plotting.helper.HFToolsAxes.get_xlabel_fmt
hftools.plotting.helper.HFToolsAxes.get_xlabel_unit
hftools.plotting.helper.HFToolsAxes.get_ylabel_fmt
hftools.plotting.helper.HFToolsAxes.get_ylabel_unit
hftools.plotting.helper.HFToolsAxes.plot
hftools.plotting.helper.HFToolsAxes.set_xlabel_fmt
hftools.plotting.helper.HFToolsAxes.set_xlabel_unit
hftools.plotting.helper.HFToolsAxes.set_ylabel_fmt
hftools.plotting.helper.HFToolsAxes.set_ylabel_unit
hftools.plotting.helper.MagAxes.__init__
hftools.plotting.helper.MagAxes.set_xlabel_fmt
hftools.plotting.helper.MagSquareAxes.__init__
hftools.plotting.helper.MagSquareAxes.set_xlabel_fmt
hftools.plotting.helper.RadAxes.__init__
hftools.plotting.helper.RadAxes.set_ylabel_fmt
hftools.plotting.helper.SimpleUnitFormatter.__call__
hftools.plotting.helper.SimpleUnitFormatter.__init__
hftools.plotting.helper.SimpleUnitFormatter.get_label_fmt
hftools.plotting.helper.SimpleUnitFormatter.get_label_unit
hftools.plotting.helper.SimpleUnitFormatter.set_label_fmt
hftools.plotting.helper.SimpleUnitFormatter.set_label_unit
hftools.plotting.helper.SimpleUnitFormatter.update_template
hftools.plotting.helper.UnitFormatter.__call__
hftools.plotting.helper.UnitFormatter.__init__
hftools.plotting.helper.UnitFormatter.get_label_fmt
hftools.plotting.helper.UnitFormatter.get_label_name_and_unit
hftools.plotting.helper.UnitFormatter.get_label_unit
hftools.plotting.helper.UnitFormatter.set_label_fmt
hftools.plotting.helper.UnitFormatter.set_label_unit
hftools.plotting.helper.UnitFormatter.update_template
hftools.plotting.helper.XSIAxes.__init__
hftools.plotting.helper._get_max_width
hftools.plotting.helper.adjust_axwidth
hftools.plotting.helper.all_figures
hftools.plotting.helper.arrange_figures
hftools.plotting.helper.build_figlegend
hftools.plotting.helper.cplx_polar_projection
hftools.plotting.helper.dB10Axes.__init__
hftools.plotting.helper.dB10Axes.set_xlabel_fmt
hftools.plotting.helper.dBAxes.__init__
hftools.plotting.helper.dBAxes.set_xlabel_fmt
hftools.plotting.helper.fig_fits_h
hftools.plotting.helper.fig_fits_w
hftools.plotting.helper.get_current_figure_position
hftools.plotting.helper.get_dims_names
hftools.plotting.helper.get_figure_positions
hftools.plotting.helper.is_in_ipython
hftools.plotting.helper.move_current_figure
hftools.plotting.helper.move_fig
hftools.plotting.helper.no_xtick_text
hftools.plotting.helper.no_ytick_text
hftools.plotting.helper.save_all_figures_to_pdf
hftools.plotting.helper.savefig
hftools.plotting.helper.set_figure_positions
hftools.plotting.helper.set_xtick
hftools.plotting.helper.set_ytick
hftools.plotting.helper.twin_axes_legend
hftools.plotting.helper.twin_fig_legend
hftools.plotting.helper.xlabel_fmt
hftools.plotting.helper.ylabel_fmt
hftools.plotting.smith.BCircle
hftools.plotting.smith.ComplexPolarAxes.__init__
hftools.plotting.smith.GCircle
hftools.plotting.smith.MyCircle.__init__
hftools.plotting.smith.MyCircle.__repr__
hftools.plotting.smith.MyCircle.get_artist
hftools.plotting.smith.MyCircle.pars
hftools.plotting.smith.MyLine.__init__
hftools.plotting.smith.MyLine.__repr__
hftools.plotting.smith.MyLine.get_artist
hftools.plotting.smith.MyLine.pars
hftools.plotting.smith.MyLine.xdata
hftools.plotting.smith.MyLine.ydata
hftools.plotting.smith.RCircle
hftools.plotting.smith.SmithAxes.__init__
hftools.plotting.smith.XCircle
hftools.plotting.smith.angle
hftools.plotting.smith.empty_grid
hftools.plotting.smith.inv_smith
hftools.plotting.smith.polar_grid
hftools.plotting.smith.smith
hftools.plotting.smith.smith_grid
hftools.plotting.smith.smith_lower
hftools.plotting.smith.smith_polar
hftools.plotting.smith.smith_upper
hftools.plotting.smith.y2gamma
hftools.plotting.smith.z2gamma
hftools.py3compat.cast_bytes
hftools.py3compat.cast_str
hftools.py3compat.cast_unicode
hftools.py3compat.decode
hftools.py3compat.encode
hftools.py3compat.no_code
hftools.py3compat.popen
hftools.py3compat.reraise
hftools.utils.beep
hftools.utils.chop
hftools.utils.deprecate
hftools.utils.flatten
hftools.utils.glob
hftools.utils.is_integer
hftools.utils.is_numlike
hftools.utils.isnumber
hftools.utils.isrealnumber
hftools.utils.lex_order
hftools.utils.make_dirs
hftools.utils.reset_hftools_warnings
hftools.utils.split_num
hftools.utils.stable_uniq
hftools.utils.timestamp
hftools.utils.to_numeric
hftools.utils.uniq
hftools.utils.warn
'''.split())
