// library functions whose calls can be made to fail, with their failure value
W(H5Aclose,-1)
W(H5Acreate1,-1)
W(H5Acreate2,-1)
W(H5Acreate_by_name,-1)
W(H5Adelete,-1)
W(H5Adelete_by_idx,-1)
W(H5Adelete_by_name,-1)
W(H5Aexists,-1)
W(H5Aexists_by_name,-1)
W(H5Aget_create_plist,-1)
W(H5Aget_info,-1)
W(H5Aget_info_by_idx,-1)
W(H5Aget_info_by_name,-1)
W(H5Aget_num_attrs,-1)
W(H5Aget_space,-1)
W(H5Aget_type,-1)
W(H5Aiterate1,-1)
W(H5Aiterate2,-1)
W(H5Aiterate_by_name,-1)
W(H5Aopen,-1)
W(H5Aopen_by_idx,-1)
W(H5Aopen_by_name,-1)
W(H5Aopen_idx,-1)
W(H5Aopen_name,-1)
W(H5Aread,-1)
W(H5Arename,-1)
W(H5Arename_by_name,-1)
W(H5Awrite,-1)
W(H5Dchunk_iter,-1)
W(H5Dclose,-1)
W(H5Dcreate1,-1)
W(H5Dcreate2,-1)
W(H5Dcreate_anon,-1)
W(H5Ddebug,-1)
W(H5Dextend,-1)
W(H5Dfill,-1)
W(H5Dflush,-1)
W(H5Dformat_convert,-1)
W(H5Dgather,-1)
W(H5Dget_access_plist,-1)
W(H5Dget_chunk_index_type,-1)
W(H5Dget_chunk_info,-1)
W(H5Dget_chunk_info_by_coord,-1)
W(H5Dget_chunk_storage_size,-1)
W(H5Dget_create_plist,-1)
W(H5Dget_num_chunks,-1)
W(H5Dget_space,-1)
W(H5Dget_space_status,-1)
W(H5Dget_type,-1)
W(H5Diterate,-1)
W(H5Dopen1,-1)
W(H5Dopen2,-1)
W(H5Dread,-1)
W(H5Dread_chunk,-1)
W(H5Drefresh,-1)
W(H5Dscatter,-1)
W(H5Dset_extent,-1)
W(H5Dvlen_get_buf_size,-1)
W(H5Dvlen_reclaim,-1)
W(H5Dwrite,-1)
W(H5Dwrite_chunk,-1)
W(H5Fclear_elink_file_cache,-1)
W(H5Fclose,-1)
W(H5Fcreate,-1)
W(H5Fflush,-1)
W(H5Fformat_convert,-1)
W(H5Fget_access_plist,-1)
W(H5Fget_create_plist,-1)
W(H5Fget_dset_no_attrs_hint,-1)
W(H5Fget_eoa,-1)
W(H5Fget_filesize,-1)
W(H5Fget_freespace,-1)
W(H5Fget_info1,-1)
W(H5Fget_info2,-1)
W(H5Fget_intent,-1)
W(H5Fget_mdc_config,-1)
W(H5Fget_mdc_hit_rate,-1)
W(H5Fget_mdc_image_info,-1)
W(H5Fget_mdc_logging_status,-1)
W(H5Fget_mdc_size,-1)
W(H5Fget_metadata_read_retry_info,-1)
W(H5Fget_page_buffering_stats,-1)
W(H5Fget_vfd_handle,-1)
W(H5Fincrement_filesize,-1)
W(H5Fis_hdf5,-1)
W(H5Fmount,-1)
W(H5Fopen,-1)
W(H5Freopen,-1)
W(H5Freset_mdc_hit_rate_stats,-1)
W(H5Freset_page_buffering_stats,-1)
W(H5Fset_dset_no_attrs_hint,-1)
W(H5Fset_latest_format,-1)
W(H5Fset_libver_bounds,-1)
W(H5Fset_mdc_config,-1)
W(H5Fstart_mdc_logging,-1)
W(H5Fstart_swmr_write,-1)
W(H5Fstop_mdc_logging,-1)
W(H5Funmount,-1)
W(H5Gclose,-1)
W(H5Gcreate1,-1)
W(H5Gcreate2,-1)
W(H5Gcreate_anon,-1)
W(H5Gflush,-1)
W(H5Gget_comment,-1)
W(H5Gget_create_plist,-1)
W(H5Gget_info,-1)
W(H5Gget_info_by_idx,-1)
W(H5Gget_info_by_name,-1)
W(H5Gget_linkval,-1)
W(H5Gget_num_objs,-1)
W(H5Gget_objinfo,-1)
W(H5Giterate,-1)
W(H5Glink,-1)
W(H5Glink2,-1)
W(H5Gmove,-1)
W(H5Gmove2,-1)
W(H5Gopen1,-1)
W(H5Gopen2,-1)
W(H5Grefresh,-1)
W(H5Gset_comment,-1)
W(H5Gunlink,-1)
W(H5Lcopy,-1)
W(H5Lcreate_external,-1)
W(H5Lcreate_hard,-1)
W(H5Lcreate_soft,-1)
W(H5Lcreate_ud,-1)
W(H5Ldelete,-1)
W(H5Ldelete_by_idx,-1)
W(H5Lexists,-1)
W(H5Lget_info,-1)
W(H5Lget_info_by_idx,-1)
W(H5Lget_val,-1)
W(H5Lget_val_by_idx,-1)
W(H5Lis_registered,-1)
W(H5Literate,-1)
W(H5Literate_by_name,-1)
W(H5Lmove,-1)
W(H5Lregister,-1)
W(H5Lunpack_elink_val,-1)
W(H5Lunregister,-1)
W(H5Lvisit,-1)
W(H5Lvisit_by_name,-1)
W(H5Oare_mdc_flushes_disabled,-1)
W(H5Oclose,-1)
W(H5Ocopy,-1)
W(H5Odecr_refcount,-1)
W(H5Odisable_mdc_flushes,-1)
W(H5Oenable_mdc_flushes,-1)
W(H5Oexists_by_name,-1)
W(H5Oflush,-1)
W(H5Oget_info,-1)
W(H5Oget_info1,-1)
W(H5Oget_info2,-1)
W(H5Oget_info_by_idx,-1)
W(H5Oget_info_by_idx1,-1)
W(H5Oget_info_by_idx2,-1)
W(H5Oget_info_by_name,-1)
W(H5Oget_info_by_name1,-1)
W(H5Oget_info_by_name2,-1)
W(H5Oincr_refcount,-1)
W(H5Olink,-1)
W(H5Oopen,-1)
W(H5Oopen_by_addr,-1)
W(H5Oopen_by_idx,-1)
W(H5Orefresh,-1)
W(H5Oset_comment,-1)
W(H5Oset_comment_by_name,-1)
W(H5Ovisit,-1)
W(H5Ovisit1,-1)
W(H5Ovisit2,-1)
W(H5Ovisit_by_name,-1)
W(H5Ovisit_by_name1,-1)
W(H5Ovisit_by_name2,-1)
W(H5Padd_merge_committed_dtype_path,-1)
W(H5Pall_filters_avail,-1)
W(H5Pclose,-1)
W(H5Pclose_class,-1)
W(H5Pcopy,-1)
W(H5Pcopy_prop,-1)
W(H5Pcreate,-1)
W(H5Pcreate_class,-1)
W(H5Pdecode,-1)
W(H5Pencode,-1)
W(H5Pequal,-1)
W(H5Pexist,-1)
W(H5Pfill_value_defined,-1)
W(H5Pfree_merge_committed_dtype_paths,-1)
W(H5Pget,-1)
W(H5Pget_alignment,-1)
W(H5Pget_alloc_time,-1)
W(H5Pget_append_flush,-1)
W(H5Pget_attr_creation_order,-1)
W(H5Pget_attr_phase_change,-1)
W(H5Pget_btree_ratios,-1)
W(H5Pget_cache,-1)
W(H5Pget_char_encoding,-1)
W(H5Pget_chunk,-1)
W(H5Pget_chunk_cache,-1)
W(H5Pget_chunk_opts,-1)
W(H5Pget_class,-1)
W(H5Pget_class_parent,-1)
W(H5Pget_copy_object,-1)
W(H5Pget_core_write_tracking,-1)
W(H5Pget_create_intermediate_group,-1)
W(H5Pget_driver,-1)
W(H5Pget_dset_no_attrs_hint,-1)
W(H5Pget_elink_acc_flags,-1)
W(H5Pget_elink_cb,-1)
W(H5Pget_elink_fapl,-1)
W(H5Pget_elink_file_cache_size,-1)
W(H5Pget_est_link_info,-1)
W(H5Pget_evict_on_close,-1)
W(H5Pget_external,-1)
W(H5Pget_external_count,-1)
W(H5Pget_family_offset,-1)
W(H5Pget_fclose_degree,-1)
W(H5Pget_file_image,-1)
W(H5Pget_file_image_callbacks,-1)
W(H5Pget_file_locking,-1)
W(H5Pget_file_space,-1)
W(H5Pget_file_space_page_size,-1)
W(H5Pget_file_space_strategy,-1)
W(H5Pget_fill_time,-1)
W(H5Pget_fill_value,-1)
W(H5Pget_filter_by_id1,-1)
W(H5Pget_filter_by_id2,-1)
W(H5Pget_gc_references,-1)
W(H5Pget_hyper_vector_size,-1)
W(H5Pget_istore_k,-1)
W(H5Pget_libver_bounds,-1)
W(H5Pget_link_creation_order,-1)
W(H5Pget_link_phase_change,-1)
W(H5Pget_local_heap_size_hint,-1)
W(H5Pget_mcdt_search_cb,-1)
W(H5Pget_mdc_config,-1)
W(H5Pget_mdc_image_config,-1)
W(H5Pget_mdc_log_options,-1)
W(H5Pget_meta_block_size,-1)
W(H5Pget_metadata_read_attempts,-1)
W(H5Pget_multi_type,-1)
W(H5Pget_nfilters,-1)
W(H5Pget_nlinks,-1)
W(H5Pget_nprops,-1)
W(H5Pget_obj_track_times,-1)
W(H5Pget_object_flush_cb,-1)
W(H5Pget_page_buffer_size,-1)
W(H5Pget_preserve,-1)
W(H5Pget_shared_mesg_index,-1)
W(H5Pget_shared_mesg_nindexes,-1)
W(H5Pget_shared_mesg_phase_change,-1)
W(H5Pget_sieve_buf_size,-1)
W(H5Pget_size,-1)
W(H5Pget_sizes,-1)
W(H5Pget_small_data_block_size,-1)
W(H5Pget_sym_k,-1)
W(H5Pget_type_conv_cb,-1)
W(H5Pget_userblock,-1)
W(H5Pget_version,-1)
W(H5Pget_virtual_count,-1)
W(H5Pget_virtual_printf_gap,-1)
W(H5Pget_virtual_srcspace,-1)
W(H5Pget_virtual_view,-1)
W(H5Pget_virtual_vspace,-1)
W(H5Pget_vlen_mem_manager,-1)
W(H5Pinsert1,-1)
W(H5Pinsert2,-1)
W(H5Pisa_class,-1)
W(H5Piterate,-1)
W(H5Pmodify_filter,-1)
W(H5Pregister1,-1)
W(H5Pregister2,-1)
W(H5Premove,-1)
W(H5Premove_filter,-1)
W(H5Pset,-1)
W(H5Pset_alignment,-1)
W(H5Pset_alloc_time,-1)
W(H5Pset_append_flush,-1)
W(H5Pset_attr_creation_order,-1)
W(H5Pset_attr_phase_change,-1)
W(H5Pset_btree_ratios,-1)
W(H5Pset_buffer,-1)
W(H5Pset_cache,-1)
W(H5Pset_char_encoding,-1)
W(H5Pset_chunk,-1)
W(H5Pset_chunk_cache,-1)
W(H5Pset_chunk_opts,-1)
W(H5Pset_copy_object,-1)
W(H5Pset_core_write_tracking,-1)
W(H5Pset_create_intermediate_group,-1)
W(H5Pset_data_transform,-1)
W(H5Pset_deflate,-1)
W(H5Pset_driver,-1)
W(H5Pset_dset_no_attrs_hint,-1)
W(H5Pset_edc_check,-1)
W(H5Pset_efile_prefix,-1)
W(H5Pset_elink_acc_flags,-1)
W(H5Pset_elink_cb,-1)
W(H5Pset_elink_fapl,-1)
W(H5Pset_elink_file_cache_size,-1)
W(H5Pset_elink_prefix,-1)
W(H5Pset_est_link_info,-1)
W(H5Pset_evict_on_close,-1)
W(H5Pset_external,-1)
W(H5Pset_family_offset,-1)
W(H5Pset_fclose_degree,-1)
W(H5Pset_file_image,-1)
W(H5Pset_file_image_callbacks,-1)
W(H5Pset_file_locking,-1)
W(H5Pset_file_space,-1)
W(H5Pset_file_space_page_size,-1)
W(H5Pset_file_space_strategy,-1)
W(H5Pset_fill_time,-1)
W(H5Pset_fill_value,-1)
W(H5Pset_filter,-1)
W(H5Pset_filter_callback,-1)
W(H5Pset_fletcher32,-1)
W(H5Pset_gc_references,-1)
W(H5Pset_hyper_vector_size,-1)
W(H5Pset_istore_k,-1)
W(H5Pset_layout,-1)
W(H5Pset_libver_bounds,-1)
W(H5Pset_link_creation_order,-1)
W(H5Pset_link_phase_change,-1)
W(H5Pset_local_heap_size_hint,-1)
W(H5Pset_mcdt_search_cb,-1)
W(H5Pset_mdc_config,-1)
W(H5Pset_mdc_image_config,-1)
W(H5Pset_mdc_log_options,-1)
W(H5Pset_meta_block_size,-1)
W(H5Pset_metadata_read_attempts,-1)
W(H5Pset_multi_type,-1)
W(H5Pset_nbit,-1)
W(H5Pset_nlinks,-1)
W(H5Pset_obj_track_times,-1)
W(H5Pset_object_flush_cb,-1)
W(H5Pset_page_buffer_size,-1)
W(H5Pset_preserve,-1)
W(H5Pset_scaleoffset,-1)
W(H5Pset_shared_mesg_index,-1)
W(H5Pset_shared_mesg_nindexes,-1)
W(H5Pset_shared_mesg_phase_change,-1)
W(H5Pset_shuffle,-1)
W(H5Pset_sieve_buf_size,-1)
W(H5Pset_sizes,-1)
W(H5Pset_small_data_block_size,-1)
W(H5Pset_sym_k,-1)
W(H5Pset_szip,-1)
W(H5Pset_type_conv_cb,-1)
W(H5Pset_userblock,-1)
W(H5Pset_virtual,-1)
W(H5Pset_virtual_prefix,-1)
W(H5Pset_virtual_printf_gap,-1)
W(H5Pset_virtual_view,-1)
W(H5Pset_vlen_mem_manager,-1)
W(H5Punregister,-1)
W(H5Sclose,-1)
W(H5Scombine_hyperslab,-1)
W(H5Scombine_select,-1)
W(H5Scopy,-1)
W(H5Screate,-1)
W(H5Screate_simple,-1)
W(H5Sdecode,-1)
W(H5Sencode,-1)
W(H5Sextent_copy,-1)
W(H5Sextent_equal,-1)
W(H5Sget_regular_hyperslab,-1)
W(H5Sget_select_bounds,-1)
W(H5Sget_select_elem_npoints,-1)
W(H5Sget_select_elem_pointlist,-1)
W(H5Sget_select_hyper_blocklist,-1)
W(H5Sget_select_hyper_nblocks,-1)
W(H5Sget_select_npoints,-1)
W(H5Sget_simple_extent_dims,-1)
W(H5Sget_simple_extent_ndims,-1)
W(H5Sget_simple_extent_npoints,-1)
W(H5Sis_regular_hyperslab,-1)
W(H5Sis_simple,-1)
W(H5Smodify_select,-1)
W(H5Soffset_simple,-1)
W(H5Sselect_adjust,-1)
W(H5Sselect_all,-1)
W(H5Sselect_copy,-1)
W(H5Sselect_elements,-1)
W(H5Sselect_hyperslab,-1)
W(H5Sselect_intersect_block,-1)
W(H5Sselect_none,-1)
W(H5Sselect_project_intersection,-1)
W(H5Sselect_shape_same,-1)
W(H5Sselect_valid,-1)
W(H5Sset_extent_none,-1)
W(H5Sset_extent_simple,-1)
W(H5Tarray_create1,-1)
W(H5Tarray_create2,-1)
W(H5Tclose,-1)
W(H5Tcommit1,-1)
W(H5Tcommit2,-1)
W(H5Tcommit_anon,-1)
W(H5Tcommitted,-1)
W(H5Tcompiler_conv,-1)
W(H5Tconvert,-1)
W(H5Tcopy,-1)
W(H5Tcreate,-1)
W(H5Tdecode,-1)
W(H5Tdetect_class,-1)
W(H5Tencode,-1)
W(H5Tenum_create,-1)
W(H5Tenum_insert,-1)
W(H5Tenum_nameof,-1)
W(H5Tenum_valueof,-1)
W(H5Tequal,-1)
W(H5Tflush,-1)
W(H5Tget_array_dims1,-1)
W(H5Tget_array_dims2,-1)
W(H5Tget_array_ndims,-1)
W(H5Tget_create_plist,-1)
W(H5Tget_fields,-1)
W(H5Tget_member_index,-1)
W(H5Tget_member_type,-1)
W(H5Tget_member_value,-1)
W(H5Tget_native_type,-1)
W(H5Tget_nmembers,-1)
W(H5Tget_offset,-1)
W(H5Tget_pad,-1)
W(H5Tget_super,-1)
W(H5Tinsert,-1)
W(H5Tis_variable_str,-1)
W(H5Tlock,-1)
W(H5Topen1,-1)
W(H5Topen2,-1)
W(H5Tpack,-1)
W(H5Trefresh,-1)
W(H5Tregister,-1)
W(H5Tset_cset,-1)
W(H5Tset_ebias,-1)
W(H5Tset_fields,-1)
W(H5Tset_inpad,-1)
W(H5Tset_norm,-1)
W(H5Tset_offset,-1)
W(H5Tset_order,-1)
W(H5Tset_pad,-1)
W(H5Tset_precision,-1)
W(H5Tset_sign,-1)
W(H5Tset_size,-1)
W(H5Tset_strpad,-1)
W(H5Tset_tag,-1)
W(H5Tunregister,-1)
W(H5Tvlen_create,-1)
W(SDDS_DefineColumn,-1)
W(SDDS_DefineParameter,-1)
W(SDDS_DefineParameter1,-1)
W(SDDS_DefineSimpleColumn,0)
W(SDDS_DefineSimpleColumns,0)
W(SDDS_DefineSimpleParameter,0)
W(SDDS_DefineSimpleParameters,0)
W(SDDS_GetColumn,0)
W(SDDS_GetColumnInDoubles,0)
W(SDDS_GetColumnInLong,0)
W(SDDS_GetColumnIndex,-1)
W(SDDS_GetColumnNames,0)
W(SDDS_GetInternalColumn,0)
W(SDDS_GetParameter,0)
W(SDDS_GetParameterAsDouble,0)
W(SDDS_GetParameterAsLong,0)
W(SDDS_GetParameterByIndex,0)
W(SDDS_GetParameterIndex,-1)
W(SDDS_GetParameterNames,0)
W(SDDS_InitializeAppend,0)
W(SDDS_InitializeInput,0)
W(SDDS_InitializeOutput,0)
W(SDDS_LengthenTable,0)
W(SDDS_ReadPage,0)
W(SDDS_ReadPageSparse,0)
W(SDDS_SetColumn,0)
W(SDDS_SetColumnFromDoubles,0)
W(SDDS_SetParameter,0)
W(SDDS_SetParameters,0)
W(SDDS_SetParametersFromDoubles,0)
W(SDDS_SetRowValues,0)
W(SDDS_ShortenTable,0)
W(SDDS_StartPage,0)
W(SDDS_Terminate,0)
W(SDDS_UpdatePage,0)
W(SDDS_WriteLayout,0)
W(SDDS_WritePage,0)
