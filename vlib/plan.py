"""What each check runs: execution modes, number of cases and shards per tier,
and which situations must have been observed for a verdict."""

def P(modes, quick, thorough, level, rule, required=(), required_calls=(), assumptions=(), **kw):
    return dict(modes=modes, quick=dict(cases=quick), thorough=dict(cases=thorough), level=level, rule=rule,
                required=list(required), required_calls=list(required_calls), assumptions=list(assumptions), **kw)

R_CALL = ("one evaluation = one call of the real function observed by the monitor; "
          "distinct_nontrivial = number of different argument sets whose outcome the oracle judged")
IJ = ["interp", "jit"]
PLAN = {}
PLAN["C01"] = P(IJ, [(4000, 4), (6000, 4)], [(60000, 4), (200000, 4)], "exploration", R_CALL,
    ["large", "hardly_any_signal", "wet_nan", "wet_after_nan", "wet_start", "n>1", "n>len", "signal_nan", "long_event", "event_within_n_of_previous", "signal_in_event_changed"],
    ["baseline_constant"])
PLAN["C02"] = P(IJ, [(4000, 4), (6000, 4)], [(60000, 4), (200000, 4)], "exploration", R_CALL,
    ["large", "hardly_any_signal", "wet_nan", "wet_nan_ignored", "killed_gap", "trailing_wet", "signal_nan", "first_flag_wet", "enclosed_event", "one_sample_event", "shared_bound"],
    ["baseline_linear"])
PLAN["C03"] = P(["interp"], [(3000, 8)], [(60000, 8)], "exploration", R_CALL,
    ["large", "bad:low", "bad:high", "bad:pol", "bad:table", "bad:shape", "mixed_pol", "table_node", "f=1", "f=100", "ndim0", "ndim1", "ndim2", "ndim3",
     "tab:ITU_2003", "tab:ITU_2005", "f:DataArray", "f:list", "f:ndarray", "f:int", "f:float", "pol:str", "pol:DataArray", "alone_vs_together"], ["a_b"])
PLAN["C04"] = P(["interp"], [(4000, 8)], [(120000, 8)], "exploration", R_CALL,
    ["large", "bad_combination", "by_frequency", "by_ab", "tab:ITU_2003", "tab:ITU_2005", "exactly_at_R_min", "A_nan", "A_negative", "A_zero", "below_R_min", "raining",
     "ndim0", "ndim1", "ndim2", "path_length_pair"], ["calc_R_from_A"])

PLAN["C05"] = P(["interp"], [(2800, 8)], [(42000, 8)], "exploration", R_CALL,
    ["long_series", "many_links"] + ["fn:" + f for f in ("baseline_constant", "waa_schleiss_2013", "waa_leijnse_2008_from_A_obs", "waa_pastorek_2021_from_A_obs", "calc_R_from_A", "get_blackout_start_and_end", "nearby_rainfall_retrival")]
    + ["extra_dims:0", "extra_dims:1", "extra_dims:2", "extra_dims:3", "positional:0", "positional:3", "time_not_last", "per_link_parameter", "different_dims", "unbindable", "defaults_used", "bad_arguments"])
PLAN["C06"] = P(IJ, [(4000, 4), (6000, 4)], [(40000, 4), (150000, 4)], "exploration", R_CALL,
    ["large", "wet_relaxing", "wet_at_A", "wet_at_max", "dry", "flag_nan", "A_nan", "prefix_pair"], ["waa_schleiss_2013"])
PLAN["C07"] = P(["interp"], [(3000, 8)], [(80000, 8)], "exploration", R_CALL,
    ["large", "leijnse_R_ndim0", "leijnse_R_ndim1", "leijnse_R_ndim2", "leijnse_f_ndim0", "leijnse_f_ndim1", "leijnse_zero", "leijnse_nan", "pastorek_R_ndim0", "pastorek_R_ndim1", "pastorek_R_ndim2", "pastorek_zero", "pastorek_nan", "pastorek_saturated", "eps"],
    ["waa_leijnse_2008", "waa_pastorek_2021", "eps_water"])
PLAN["C08"] = P(["interp"], [(1600, 8)], [(30000, 8)], "exploration", R_CALL,
    ["large", "large_labelled", "many_links", "negative", "zero", "nan", "inverted", "ndim0", "ndim1", "ndim2", "fn:waa_leijnse_2008_from_A_obs", "fn:waa_pastorek_2021_from_A_obs", "labelled:waa_leijnse_2008_from_A_obs", "labelled:waa_pastorek_2021_from_A_obs"])
PLAN["C09"] = P(IJ, [(4000, 4), (8000, 4)], [(40000, 4), (200000, 4)], "exploration", R_CALL,
    ["day_long_masked_gap", "markers_labelled", "circular_start", "circular_end", "both_markers", "at_threshold", "masked_gap", "unmasked_gap", "long_masked_gap", "masked_gap_at_end", "gap_at_start", "one_sided_gap", "combined"],
    ["get_blackout_start_and_end", "created_blackout_gap_mask_from_start_end_markers"])
PLAN["C10"] = P(["interp"], [(2400, 8)], [(60000, 8)], "exploration", R_CALL,
    ["many_points", "many_links", "hav", "hav_labelled", "identical", "antipodal", "symmetric", "plus360", "dist", "ids:U", "ids:i", "one_link"], ["haversine", "calc_distance_between_cml_endpoints"])
PLAN["C11"] = P(["interp"], [(400, 8)], [(8000, 8)], "exploration", R_CALL,
    ["many_links", "weeks_long", "link_without_enough_neighbours", "just_enough_neighbours", "wet", "dry", "wet_by_neighbour_step", "missing_data", "step_unclassified", "F_defined", "at_threshold", "links_outside_radius",
     "ds_dist_other_order_or_superset", "time_first", "interval!=15", "crafted_distances", "reordered_links", "longer_than_default_window"], ["nearby_wetdry"])
PLAN["C12"] = P(["interp"], [(1600, 8)], [(30000, 8)], "exploration", R_CALL,
    ["large", "many_links", "ref_missing", "ref_in_wet_step", "ref_wet_nan", "ref_window_shorter_than_series", "ref_min_periods>1", "corr_wet_below", "corr_wet_above", "corr_dry_below", "corr_max_above", "corr_equal", "corr_nan",
     "rain_bad_combination", "rain_positive", "rain_zero", "rain_no_threshold", "rain_outlier", "rain_F_at_threshold", "rain_missing_ref", "rain_by_f", "rain_by_ab", "rain_ndim1", "rain_ndim2", "rain_ndim3"],
    ["nearby_determine_reference_level", "nearby_correct_received_signals", "nearby_rainfall_retrival"])
PLAN["C13"] = P(IJ, [(2400, 4), (2400, 4)], [(30000, 4), (60000, 4)], "exploration", R_CALL,
    ["large_grid", "many_queries", "many_points", "tree", "interpolator", "dim1", "dim2", "dim3", "q_ndim1", "q_ndim2", "grid_point_without_neighbour", "interpolated", "coincident_or_single", "fewer_points_than_nnear", "more_points_than_nnear", "max_distance",
     "nnear<=1", "all_nan", "all_nan_int_grid", "nan_excluded", "exclude_nan_off_with_nan", "own_grid", "no_grid_no_resolution", "grid_ndim1", "grid_ndim2", "grid_ndim3", "z:i", "grid:i", "reordered_points"],
    ["Invdisttree.__call__", "Interpolator.__call__"])
PLAN["C14"] = P(IJ, [(1000, 4), (1000, 4)], [(15000, 4), (20000, 4)], "exploration",
    "one evaluation = one call within a recorded history, compared with the same call on a new object; distinct_nontrivial = different (operation, arguments, position) steps",
    ["large_idw", "large_ok", "concurrent_objects", "tree:q_inplace", "tree:maxd", "tree:nnear", "tree:z_inplace", "X_changed_in_place", "result_changed_by_caller", "idw:x_inplace", "idw:nan_swap", "idw:maxd", "idw:nnear", "idw:p", "idw:exclude", "idw:back", "idw:swap_xy", "idw:grid_inplace", "idw:all_nan", "ok:x_inplace", "ok:model", "ok:nan", "ok:closest"])
PLAN["C15"] = P(["interp"], [(1000, 8)], [(20000, 8)], "exploration", R_CALL,
    ["large_grid", "many_points", "no_grid_no_resolution", "own_grid", "all_nan", "nan_excluded", "fitted_variogram", "moving_window", "at_data_point", "model:spherical", "model:exponential", "model:linear", "model:power", "model:gaussian",
     "backend:C", "backend:loop", "backend:vectorized", "grid_ndim1", "grid_ndim2", "grid_ndim3", "clim", "clim_leap_day"], ["Interpolator.__call__", "clim_var_param"])
PLAN["C16"] = P(["interp"], [(1200, 8)], [(30000, 8)], "exploration", R_CALL, ["large_grid", "many_links", "mixed", "uncovered", "covered", "links1", "links3", "non_square", "zero_length", "link_added"], ["calc_coverage_mask"])
PLAN["C17"] = P(["interp"], [(3200, 8)], [(30000, 8)], "exploration", R_CALL,
    ["large", "pxx_without_f", "bad_dry_choice", "mirrored_power_compared", "dry_choice:000", "dry_choice:100", "dry_choice:010", "dry_choice:101", "dry_choice:011", "dry_choice:111", "exactly_at_threshold", "edges", "mirror", "power_compared", "wet", "dry", "signal_nan", "odd", "even", "dry_length", "dry_given", "own_window", "own_spectrogram",
     "f_divide_at_frequency", "lowest_std", "lowest_at_end", "lowest_at_start", "lowest_tied"], ["stft_classification", "find_lowest_std_dev_period"])
PLAN["C18"] = P(["interp"], [(800, 8)], [(16000, 8)], "exploration", R_CALL,
    ["large", "model:rg", "model:rad", "model:rg_online", "model:rad_online", "unknown_model", "predicted", "gap", "nothing_predicted", "default_model", "least_values_for_median", "shortest", "longer_than_median_window", "constant_added"], ["mlp_wet_dry"])
PLAN["C19"] = P(["interp"], [(640, 8)], [(10000, 8)], "exploration", R_CALL,
    ["large", "long_series", "last_batch_edge", "rolling", "rolling_too_short", "batchify", "loader", "several_batches", "one_batch", "partial_batch", "recorded", "run", "redistributed", "unknown_skipped", "cnn_wd"],
    ["rolling_window", "batchify_windows", "run_inference", "redistribute_results", "cnn_wd"])
PLAN["C20"] = P(["interp"], [(640, 8)], [(8000, 8)], "exploration", R_CALL,
    ["large", "create", "create_none", "create_gaps", "create_unknown", "other_id_dim", "scale", "scale_constant", "store", "store_skipped", "store_bad_length", "store_named", "store_model_name", "store_default_name", "cnn", "cnn_ds", "cnn_da", "cnn_ids", "cnn_id_coord", "cnn_no_sample", "bad_id_coord"],
    ["create_samples", "scale_features", "store_predictions", "wet_dry_1d_cnn"])
PLAN["C21"] = P(["interp"], [(800, 8)], [(12000, 8)], "fault_enumeration",
    "one evaluation = one operation on a cache (download, listing, clearing, killed/failed/concurrent download) whose outcome, cache state and request log were checked; distinct_nontrivial = different (history position, operation, url, fault)",
    ["close_urls", "reuse", "reuse_server_broken", "downloaded", "forced_replaced", "mode:ok", "mode:nolength", "mode:slow", "mode:redirect", "fault:404", "fault:500", "fault:truncated", "fault:reset", "fault:chunked_cut", "fault:refused",
     "forced_failed_keeps_old", "http", "https", "listed", "listed_empty", "cleared", "cleared_other_dir_kept", "cleared_missing", "killed", "killed_with_old_file", "killed_before_completion", "write_failed", "concurrent", "concurrent_process", "reader_during_replacement", "resolved", "home_dir"])
PLAN["C22"] = P(["interp"], [(640, 8)], [(10000, 8)], "exploration", R_CALL,
    ["large", "example", "channels1", "channels2", "channels3", "minmax", "instantaneous", "links>1", "nan", "other_time_axis"], ["read_cmlh5_file_to_xarray"])
PLAN["C23"] = P(["interp"], [(6000, 8)], [(120000, 8)], "exploration", R_CALL,
    ["long_record", "bad_shape", "nan_pairs", "nan_both_sides", "all_four", "nothing_predicted_wet", "everything_predicted_wet", "no_wet_reference", "no_valid_pair", "ndim1", "ndim2", "ndim3", "ref:b", "ref:i", "ref:f", "ref:u", "deprecated", "deprecation_warning"],
    ["calc_wet_dry_performance_metrics", "calc_wet_error_rates"])
PLAN["C24"] = P(["interp"], [(6000, 8)], [(100000, 8)], "exploration", R_CALL,
    ["large", "negative_mean", "bad_shape", "correlation", "nan_pairs", "false_wet", "missed_wet", "at_threshold", "no_valid_pair", "no_wet_reference", "no_dry_reference", "ndim1", "ndim2", "ndim3", "threshold_pair"], ["calc_rain_error_performance_metrics"])
PLAN["C25"] = P(["interp"], [(3000, 8)], [(60000, 8)], "exploration", R_CALL,
    ["large", "no_such_time", "bad_label", "naive_target", "outside", "no_stamp", "exactly_at_stamp", "label:right", "label:left", "aggregated", "several_samples", "different_zones", "several_columns"], ["aggregate_df_onto_DatetimeIndex"])
PLAN["C26"] = P(["interp"], [(1200, 8)], [(20000, 8)], "exploration", R_CALL,
    ["large_grid", "long", "channels_with_other_period", "one_pixel", "several_pixels", "grid_time_at_end_of_link_data", "part_of_period", "descending_latitude", "bad_label", "sample_outside", "sample_at_stamp", "resample:left", "resample:right", "zone", "no_zone", "resampled", "reused_validator"],
    ["get_time_series", "resample_to_grid_time_series"])
PLAN["C29"] = P(["interp"], [(6000, 8)], [(120000, 8)], "exploration", R_CALL,
    ["large", "missing", "all_missing", "window0", "window>=len", "clipped", "attenuation", "own_bias", "A_nan", "A_negative", "below_R_min", "raining", "by_f", "by_ab", "R_ndim0", "R_ndim1", "R_ndim2", "own_k", "exactly_at_R_min"],
    ["_calc_A_min_max", "calc_R_from_A_min_max"])
PLAN["C28"] = P(["interp", "jit", "bounds", "jit0"], [(6000, 4)] * 4, [(120000, 4)] * 4, "exploration",
    "one evaluation = one call of a function with a compiled loop, observed in each of four differently configured processes and compared between them; "
    "distinct_nontrivial = number of different argument sets",
    ["large", "different_length", "different_length_refused", "empty", "one_sample", "raised", "baseline_constant", "baseline_linear", "waa_schleiss_2013", "blackout", "idw", "fewer_points_than_nnear",
     "signal:strided", "signal:reversed", "signal:readonly", "signal:f4", "signal:series", "signal:list", "signal:int", "wet:bool", "wet:int", "wet:strided"],
    ["baseline_constant", "baseline_linear", "waa_schleiss_2013", "created_blackout_gap_mask_from_start_end_markers", "Invdisttree.__call__"], compare=True)
from_c27 = ("baseline_constant", "baseline_linear", "a_b", "calc_R_from_A", "calc_R_from_A_min_max", "waa_schleiss_2013", "waa_leijnse_2008", "waa_pastorek_2021", "waa_leijnse_2008_from_A_obs",
    "waa_pastorek_2021_from_A_obs", "eps_water", "get_blackout_start_and_end", "created_blackout_gap_mask_from_start_end_markers", "haversine", "calc_distance_between_cml_endpoints",
    "nearby_wetdry", "nearby_determine_reference_level", "nearby_correct_received_signals", "nearby_rainfall_retrival", "stft_classification", "find_lowest_std_dev_period", "mlp_wet_dry",
    "batchify_windows", "redistribute_results", "create_samples", "scale_features", "store_predictions", "calc_coverage_mask", "clim_var_param", "Invdisttree.__call__",
    "PointsToGridInterpolator.__call__", "calc_wet_dry_performance_metrics", "calc_rain_error_performance_metrics", "GridValidator.get_time_series", "GridValidator.resample_to_grid_time_series",
    "aggregate_df_onto_DatetimeIndex")
PLAN["C27"] = P(IJ, [(1440, 6), (288, 2)], [(40000, 6), (10000, 2)], "exploration",
    "one evaluation = one call of a public function whose arguments were compared before/after and whose outcome was recorded for repetition; distinct_nontrivial = different argument sets plus thread batches",
    ["repeated:" + f for f in from_c27 + ("cnn_wd", "wet_dry_1d_cnn")] + ["overwritten_result", "repeated_later", "threaded_calls", "threads_same_function", "tables_watched"], from_c27)
PLAN["C30"] = P(IJ, [(360, 6), (80, 2)], [(8000, 6), (3000, 2)], "exploration",
    "one evaluation = one monitored call within a run of the chain; distinct_nontrivial = different chain results checked link by link, plus different calls",
    ["rain", "missing", "dry", "unclassified", "alone", "nudged", "shared_frequency", "reordered", "map", "map_with_missing_link", "map_without_data", "one_link", "several_links", "channels1", "channels2", "wd:rsd", "wd:stft", "wd:mlp",
     "waa:schleiss", "waa:leijnse", "waa:pastorek", "waa:none"],
    ["baseline_constant", "calc_R_from_A", "waa_schleiss_2013", "waa_leijnse_2008_from_A_obs", "waa_pastorek_2021_from_A_obs", "stft_classification", "mlp_wet_dry", "Interpolator.__call__"])
PLAN["C31"] = P(["interp"], [(1440, 8)], [(40000, 8)], "exploration",
    "one evaluation = one call of a public function repeated in up to four spellings; distinct_nontrivial = different argument sets",
    ["positional", "omitted", "object:IdwKdtreeInterpolator", "object:OrdinaryKrigingInterpolator"]
    + ["called:" + f for f in from_c27 if f in ("baseline_constant", "baseline_linear", "a_b", "calc_R_from_A", "waa_schleiss_2013", "nearby_wetdry", "nearby_rainfall_retrival", "stft_classification", "mlp_wet_dry")])
PLAN["C32"] = P(["interp"], [(600, 8)], [(10000, 8)], "fault_enumeration",
    "one evaluation = one request for a model (path or URL) within a history whose outcome was compared with the model that location must give; distinct_nontrivial = different (history position, request)",
    ["path", "file_replaced", "not_a_model", "damaged_file", "url_new", "url_cached", "url_forced", "url_failed", "url_failed_with_old", "cached_with_broken_server", "server_has_newer", "threads", "cnn_wd", "refused",
     "tf_not_there", "tf_local", "tf_forced", "tf_new", "tf_cached", "tf_down", "wet_dry_1d_cnn", "resolve_model_paths", "https", "published", "published_cached", "published_down"])
PLAN["C33"] = P(["interp"], [(480, 8)], [(9000, 8)], "exploration",
    "one evaluation = one call of a public function, one import in a fresh interpreter, or one request for TensorFlow, with what it did to the process and the machine; distinct_nontrivial = different calls, imports and requests",
    ["raising_call", "imports:tensorflow", "imports:torch", "imports:tensorflow+torch", "imports:all_installed", "torch_missing", "tf_present", "tf_missing_not_asked", "install_asked", "install_by_environment", "install_by_argument",
     "gpu_package", "cpu_package", "installed", "install_failed", "returned:cnn_wd", "large", "returned:download_and_cache_model", "returned:download_and_cache", "returned:resolve_model_paths", "returned:clear_model_cache", "returned:list_cached_models", "returned:get_model"] + ["source:" + s for s in ("c01", "c03", "c05", "c11", "c15", "c17", "c18", "c19", "c20", "c22", "c24", "c26")],
    ["baseline_constant", "calc_R_from_A", "nearby_wetdry", "mlp_wet_dry", "cnn_wd", "read_cmlh5_file_to_xarray", "PointsToGridInterpolator.__call__"])
PLAN["C35"] = P(["interp", "jit"], [(126, 6), (24, 2)], [(6000, 6), (2000, 2)], "exploration",
    "one evaluation = one series of calls of one function or object on fresh data after which the monitor looked at what is still held; distinct_nontrivial = different series",
    ["repeated:" + f for f in ("a_b", "calc_R_from_A", "baseline_constant", "baseline_linear", "waa_leijnse_2008", "waa_pastorek_2021", "waa_schleiss_2013", "haversine", "stft_classification", "calc_coverage_mask",
      "object:Invdisttree", "object:IdwKdtreeInterpolator", "object:OrdinaryKrigingInterpolator", "object:GridValidator", "cnn_wd", "wet_dry_1d_cnn", "files", "downloads")]
    + ["files_read", "files_failing", "download:ok"])
PLAN["C34"] = P(IJ, [(960, 6), (240, 2)], [(40000, 6), (10000, 2)], "exploration",
    "one evaluation = one call of a public function, or its repetition with the same values stored in another way; distinct_nontrivial = different (argument set, kinds of storage)",
    ["stored:" + k for k in ("fortran", "strided", "reversed", "readonly", "swapped", "memmap", "scalar")]
    + ["called:" + f for f in from_c27 if f not in ("GridValidator.get_time_series", "GridValidator.resample_to_grid_time_series", "aggregate_df_onto_DatetimeIndex", "eps_water", "redistribute_results")])
