"""Documented default arguments (written by tools/write_defaults.py, reviewed by hand)."""
DEFAULTS = {'pycomlink.processing.baseline.baseline_constant': {'n_average_last_dry': 1},
 'pycomlink.processing.baseline.baseline_linear': {'ignore_nan': False},
 'pycomlink.processing.k_R_relation.a_b': {'approx_type': 'ITU_2005'},
 'pycomlink.processing.k_R_relation.calc_R_from_A': {'R_min': 0.1,
                                                     'a': None,
                                                     'a_b_approximation': 'ITU_2005',
                                                     'b': None,
                                                     'f_GHz': None,
                                                     'pol': None},
 'pycomlink.processing.k_R_relation.calc_R_from_A_min_max': {'R_min': 0.1, 'a': None, 'b': None, 'f_GHz': None, 'k': 90, 'pol': 'H'},
 'pycomlink.processing.min_max._calc_A_min_max': {'gR': 0.6, 'gT': 1.0, 'window': 7},
 'pycomlink.processing.nearby_rain_retrival.nearby_determine_reference_level': {'min_periods': 1, 'n_average_dry': 96},
 'pycomlink.processing.nearby_rain_retrival.nearby_rainfall_retrival': {'F_value_threshold': -32.5,
                                                                        'a': None,
                                                                        'a_b_approximation': 'ITU_2005',
                                                                        'alpha': 0.33,
                                                                        'b': None,
                                                                        'f_GHz': None,
                                                                        'pol': None,
                                                                        'waa_max': 2.3},
 'pycomlink.processing.pytorch_utils.inference_utils.download_and_cache_model': {'force_download': False},
 'pycomlink.processing.pytorch_utils.inference_utils.get_model': {'force_download': False},
 'pycomlink.processing.pytorch_utils.inference_utils.list_cached_models': {'suffix': '.pt'},
 'pycomlink.processing.pytorch_utils.run_inference.batchify_windows': {'reflength': 60},
 'pycomlink.processing.pytorch_utils.run_inference.cnn_wd': {'batch_size': 32, 'force_download': False, 'reflength': 60},
 'pycomlink.processing.pytorch_utils.run_inference.rolling_window': {'reflength': 60},
 'pycomlink.processing.pytorch_utils.run_inference.run_inference': {'batch_size': 32, 'reflength': 60},
 'pycomlink.processing.tensorflow_utils.inference_utils.create_samples': {'cml_dim': 'cml_id', 'seq_len': 180, 'time_dim': 'time'},
 'pycomlink.processing.tensorflow_utils.inference_utils.download_and_cache': {'force_download': False},
 'pycomlink.processing.tensorflow_utils.inference_utils.load_model_from_local': {'json_path': None,
                                                                                 'loss': 'binary_crossentropy',
                                                                                 'lr': 0.05,
                                                                                 'optimizer': None,
                                                                                 'weights_path': None},
 'pycomlink.processing.tensorflow_utils.inference_utils.resolve_model_paths': {'cache_dir': 'model_cnn', 'force_download': False},
 'pycomlink.processing.tensorflow_utils.inference_utils.run_inference': {'batch_size': 128},
 'pycomlink.processing.tensorflow_utils.inference_utils.store_predictions': {'cml_dim': 'cml_id',
                                                                             'cml_ids_to_use': None,
                                                                             'model_name': 'model',
                                                                             'time_dim': 'time',
                                                                             'var_name': None},
 'pycomlink.processing.tensorflow_utils.run_inference.wet_dry_1d_cnn': {'batch_size': None,
                                                                        'cache_dir': None,
                                                                        'cml_ids': None,
                                                                        'force_download': False,
                                                                        'id_coord': 'cml_id',
                                                                        'input_vars': None,
                                                                        'install_tensorflow': False,
                                                                        'json_url': None,
                                                                        'lr': None,
                                                                        'prob_name': None,
                                                                        'return_ds': True,
                                                                        'seq_len': None,
                                                                        'weights_url': None},
 'pycomlink.processing.wet_antenna.waa_leijnse_2008': {'T_K': 293.0,
                                                       'delta': 0.24,
                                                       'gamma': 2.06e-05,
                                                       'l_antenna': 0.001,
                                                       'n_antenna': (1.73+0.014j)},
 'pycomlink.processing.wet_antenna.waa_leijnse_2008_from_A_obs': {'T_K': 293.0,
                                                                  'delta': 0.24,
                                                                  'gamma': 2.06e-05,
                                                                  'l_antenna': 0.001,
                                                                  'n_antenna': (1.73+0.014j)},
 'pycomlink.processing.wet_antenna.waa_pastorek_2021': {'A_max': 14, 'd': 0.1, 'zeta': 0.55},
 'pycomlink.processing.wet_antenna.waa_pastorek_2021_from_A_obs': {'A_max': 14, 'd': 0.1, 'zeta': 0.55},
 'pycomlink.processing.wet_dry.mlp.mlp_wet_dry': {'model_sel': 'rad_online'},
 'pycomlink.processing.wet_dry.nearby_wetdry.nearby_wetdry': {'interval': 15,
                                                              'min_hours': 6,
                                                              'min_links': 3,
                                                              'radius': 15,
                                                              'thresh_median_P': -1.4,
                                                              'thresh_median_PL': -0.7,
                                                              'timeperiod': 24},
 'pycomlink.processing.wet_dry.stft.find_lowest_std_dev_period': {'window_length': 600},
 'pycomlink.processing.wet_dry.stft.stft_classification': {'Pxx': None,
                                                           'dry_length': None,
                                                           'f': None,
                                                           'f_sampling': 0.016666666666666666,
                                                           'mirror': False,
                                                           't_dry_start': None,
                                                           't_dry_stop': None,
                                                           'window': None},
 'pycomlink.processing.xarray_wrapper.xarray_apply_along_time_dim': {'n_outputs': 1},
 'pycomlink.spatial.idw.Invdisttree.__call__': {'eps': 0, 'max_distance': None, 'nnear': 6, 'p': 1, 'weights': None},
 'pycomlink.spatial.idw.Invdisttree.__init__': {'leafsize': 10, 'stat': 0},
 'pycomlink.spatial.interpolator.IdwKdtreeInterpolator.__init__': {'exclude_nan': True, 'max_distance': None, 'nnear': 8, 'p': 2},
 'pycomlink.spatial.interpolator.OrdinaryKrigingInterpolator.__init__': {'backend': 'C',
                                                                         'exclude_nan': True,
                                                                         'n_closest_points': None,
                                                                         'nlags': 100,
                                                                         'variogram_model': 'spherical',
                                                                         'variogram_parameters': {'nugget': 0.1, 'range': 1, 'sill': 0.9},
                                                                         'weight': True},
 'pycomlink.spatial.interpolator.PointsToGridInterpolator.__call__': {'resolution': None, 'xgrid': None, 'ygrid': None},
 'pycomlink.spatial.interpolator.clim_var_param': {'date_str': '20130404', 'time_scale_hours': 0.25},
 'pycomlink.util.temporal.aggregate_df_onto_DatetimeIndex': {'label': 'right', 'new_index_tz': 'utc'},
 'pycomlink.validation.validator.GridValidator.__init__': {'lats': None, 'lons': None, 'values': None, 'xr_ds': None},
 'pycomlink.validation.validator.GridValidator.resample_to_grid_time_series': {'grid_time_zone': None}}
# parameters in documented order
PARAMS = {'pycomlink.io.cmlh5_to_xarray.read_cmlh5_file_to_xarray': ['filename'],
 'pycomlink.io.examples.get_75_cmls': [],
 'pycomlink.io.examples.get_75_cmls_min_max': [],
 'pycomlink.io.examples.get_example_data_path': [],
 'pycomlink.io.examples.get_one_cml': [],
 'pycomlink.processing.baseline.baseline_constant': ['trsl', 'wet', 'n_average_last_dry'],
 'pycomlink.processing.baseline.baseline_linear': ['rsl', 'wet', 'ignore_nan'],
 'pycomlink.processing.blackout_gap_detection.created_blackout_gap_mask_from_start_end_markers': ['rsl', 'gap_start', 'gap_end'],
 'pycomlink.processing.blackout_gap_detection.get_blackout_start_and_end': ['rsl', 'rsl_threshold'],
 'pycomlink.processing.k_R_relation.a_b': ['f_GHz', 'pol', 'approx_type'],
 'pycomlink.processing.k_R_relation.calc_R_from_A': ['A', 'L_km', 'f_GHz', 'pol', 'a', 'b', 'a_b_approximation', 'R_min'],
 'pycomlink.processing.k_R_relation.calc_R_from_A_min_max': ['Ar_max', 'L', 'f_GHz', 'a', 'b', 'pol', 'R_min', 'k'],
 'pycomlink.processing.min_max._calc_A_min_max': ['tx_min', 'tx_max', 'rx_min', 'rx_max', 'gT', 'gR', 'window'],
 'pycomlink.processing.nearby_rain_retrival.nearby_correct_received_signals': ['pmin', 'pmax', 'wet', 'pref'],
 'pycomlink.processing.nearby_rain_retrival.nearby_determine_reference_level': ['pmin', 'pmax', 'wet', 'n_average_dry', 'min_periods'],
 'pycomlink.processing.nearby_rain_retrival.nearby_rainfall_retrival': ['pref',
                                                                        'p_c_min',
                                                                        'p_c_max',
                                                                        'F',
                                                                        'length',
                                                                        'f_GHz',
                                                                        'pol',
                                                                        'a',
                                                                        'b',
                                                                        'a_b_approximation',
                                                                        'waa_max',
                                                                        'alpha',
                                                                        'F_value_threshold'],
 'pycomlink.processing.pytorch_utils.inference_utils.clear_model_cache': ['cache_dir'],
 'pycomlink.processing.pytorch_utils.inference_utils.download_and_cache_model': ['model_url', 'cache_dir', 'force_download'],
 'pycomlink.processing.pytorch_utils.inference_utils.get_model': ['model_path_or_url', 'force_download'],
 'pycomlink.processing.pytorch_utils.inference_utils.list_cached_models': ['cache_dir', 'suffix'],
 'pycomlink.processing.pytorch_utils.pytorch_utils.build_dataloader': ['combined_samples', 'batch_size'],
 'pycomlink.processing.pytorch_utils.pytorch_utils.load_model': ['model_path', 'device'],
 'pycomlink.processing.pytorch_utils.pytorch_utils.predict_batch': ['model', 'batch', 'device'],
 'pycomlink.processing.pytorch_utils.pytorch_utils.set_device': [],
 'pycomlink.processing.pytorch_utils.run_inference.batchify_windows': ['data', 'window_size', 'reflength'],
 'pycomlink.processing.pytorch_utils.run_inference.cnn_wd': ['model_path_or_url', 'data', 'batch_size', 'force_download', 'reflength'],
 'pycomlink.processing.pytorch_utils.run_inference.redistribute_results': ['results', 'data'],
 'pycomlink.processing.pytorch_utils.run_inference.rolling_window': ['timeseries', 'valid_times', 'window_size', 'reflength'],
 'pycomlink.processing.pytorch_utils.run_inference.run_inference': ['model', 'data', 'batch_size', 'reflength'],
 'pycomlink.processing.tensorflow_utils.inference_utils.create_samples': ['ds', 'cml_ids', 'input_vars', 'seq_len', 'time_dim', 'cml_dim'],
 'pycomlink.processing.tensorflow_utils.inference_utils.download_and_cache': ['url', 'cache_dir', 'force_download'],
 'pycomlink.processing.tensorflow_utils.inference_utils.get_model_from_json': [],
 'pycomlink.processing.tensorflow_utils.inference_utils.get_optimizer_class': [],
 'pycomlink.processing.tensorflow_utils.inference_utils.is_url': ['path'],
 'pycomlink.processing.tensorflow_utils.inference_utils.load_model_from_local': ['json_path', 'weights_path', 'lr', 'loss', 'optimizer'],
 'pycomlink.processing.tensorflow_utils.inference_utils.resolve_model_paths': ['json_source',
                                                                               'weights_source',
                                                                               'cache_dir',
                                                                               'force_download'],
 'pycomlink.processing.tensorflow_utils.inference_utils.run_inference': ['model', 'model_input', 'batch_size'],
 'pycomlink.processing.tensorflow_utils.inference_utils.scale_features': ['input_seq', 'input_vars'],
 'pycomlink.processing.tensorflow_utils.inference_utils.store_predictions': ['ds',
                                                                             'model_prob',
                                                                             'cml_ids',
                                                                             'time_indices',
                                                                             'model_name',
                                                                             'var_name',
                                                                             'time_dim',
                                                                             'cml_dim',
                                                                             'cml_ids_to_use'],
 'pycomlink.processing.tensorflow_utils.run_inference.wet_dry_1d_cnn': ['ds',
                                                                        'id_coord',
                                                                        'input_vars',
                                                                        'seq_len',
                                                                        'prob_name',
                                                                        'batch_size',
                                                                        'lr',
                                                                        'json_url',
                                                                        'weights_url',
                                                                        'cache_dir',
                                                                        'force_download',
                                                                        'return_ds',
                                                                        'cml_ids',
                                                                        'install_tensorflow'],
 'pycomlink.processing.wet_antenna.eps_water': ['f_Hz', 'T_K'],
 'pycomlink.processing.wet_antenna.waa_leijnse_2008': ['R', 'f_Hz', 'T_K', 'gamma', 'delta', 'n_antenna', 'l_antenna'],
 'pycomlink.processing.wet_antenna.waa_leijnse_2008_from_A_obs': ['A_obs',
                                                                  'f_Hz',
                                                                  'pol',
                                                                  'L_km',
                                                                  'T_K',
                                                                  'gamma',
                                                                  'delta',
                                                                  'n_antenna',
                                                                  'l_antenna'],
 'pycomlink.processing.wet_antenna.waa_pastorek_2021': ['R', 'A_max', 'zeta', 'd'],
 'pycomlink.processing.wet_antenna.waa_pastorek_2021_from_A_obs': ['A_obs', 'f_Hz', 'pol', 'L_km', 'A_max', 'zeta', 'd'],
 'pycomlink.processing.wet_antenna.waa_schleiss_2013': ['rsl', 'baseline', 'wet', 'waa_max', 'delta_t', 'tau'],
 'pycomlink.processing.wet_dry.mlp.get_model_file_path': [],
 'pycomlink.processing.wet_dry.mlp.mlp_wet_dry': ['trsl_channel_1', 'trsl_channel_2', 'model_sel'],
 'pycomlink.processing.wet_dry.nearby_wetdry.calc_distance_between_cml_endpoints': ['cml_ids',
                                                                                    'site_a_latitude',
                                                                                    'site_a_longitude',
                                                                                    'site_b_latitude',
                                                                                    'site_b_longitude'],
 'pycomlink.processing.wet_dry.nearby_wetdry.nearby_wetdry': ['pmin',
                                                              'ds_dist',
                                                              'radius',
                                                              'thresh_median_P',
                                                              'thresh_median_PL',
                                                              'min_links',
                                                              'interval',
                                                              'timeperiod',
                                                              'min_hours'],
 'pycomlink.processing.wet_dry.stft.find_lowest_std_dev_period': ['rsl', 'window_length'],
 'pycomlink.processing.wet_dry.stft.stft_classification': ['rsl',
                                                           'window_length',
                                                           'threshold',
                                                           'f_divide',
                                                           't_dry_start',
                                                           't_dry_stop',
                                                           'dry_length',
                                                           'mirror',
                                                           'window',
                                                           'Pxx',
                                                           'f',
                                                           'f_sampling'],
 'pycomlink.processing.xarray_wrapper.xarray_apply_along_time_dim': ['n_outputs'],
 'pycomlink.spatial.coverage.calc_coverage_mask': ['cml_list', 'xgrid', 'ygrid', 'max_dist_from_cml'],
 'pycomlink.spatial.helper.haversine': ['lon1', 'lat1', 'lon2', 'lat2'],
 'pycomlink.spatial.idw.Invdisttree.__call__': ['self', 'q', 'z', 'nnear', 'eps', 'p', 'weights', 'max_distance'],
 'pycomlink.spatial.idw.Invdisttree.__init__': ['self', 'X', 'leafsize', 'stat'],
 'pycomlink.spatial.interpolator.IdwKdtreeInterpolator.__init__': ['self', 'nnear', 'p', 'exclude_nan', 'max_distance'],
 'pycomlink.spatial.interpolator.IdwKdtreeInterpolator._interpol_func': ['self', 'x', 'y', 'z', 'xi', 'yi'],
 'pycomlink.spatial.interpolator.OrdinaryKrigingInterpolator.__init__': ['self',
                                                                         'nlags',
                                                                         'variogram_model',
                                                                         'variogram_parameters',
                                                                         'weight',
                                                                         'n_closest_points',
                                                                         'exclude_nan',
                                                                         'backend'],
 'pycomlink.spatial.interpolator.OrdinaryKrigingInterpolator._interpol_func': ['self', 'x', 'y', 'z', 'xi', 'yi'],
 'pycomlink.spatial.interpolator.PointsToGridInterpolator.__call__': ['self', 'x', 'y', 'z', 'xgrid', 'ygrid', 'resolution'],
 'pycomlink.spatial.interpolator.PointsToGridInterpolator.__init__': ['self'],
 'pycomlink.spatial.interpolator.PointsToGridInterpolator._interpol_func': ['self', 'x', 'y', 'z', 'xi', 'yi'],
 'pycomlink.spatial.interpolator.clim_var_param': ['date_str', 'time_scale_hours'],
 'pycomlink.util.maintenance.deprecated': ['instructions'],
 'pycomlink.util.temporal.aggregate_df_onto_DatetimeIndex': ['df', 'new_index', 'method', 'label', 'new_index_tz'],
 'pycomlink.validation.stats.WetError.__getnewargs__': ['self'],
 'pycomlink.validation.stats.WetError.__repr__': ['self'],
 'pycomlink.validation.stats.WetError._asdict': ['self'],
 'pycomlink.validation.stats.calc_rain_error_performance_metrics': ['reference', 'predicted', 'rainfall_threshold_wet'],
 'pycomlink.validation.stats.calc_wet_dry_performance_metrics': ['reference', 'predicted'],
 'pycomlink.validation.stats.calc_wet_error_rates': ['df_wet_truth', 'df_wet'],
 'pycomlink.validation.validator.GridValidator.__init__': ['self', 'lats', 'lons', 'values', 'xr_ds'],
 'pycomlink.validation.validator.GridValidator._get_cml_intersection_weights': ['self', 'cml'],
 'pycomlink.validation.validator.GridValidator.get_time_series': ['self', 'cml', 'values'],
 'pycomlink.validation.validator.GridValidator.resample_to_grid_time_series': ['self', 'df', 'grid_time_index_label', 'grid_time_zone'],
 'pycomlink.validation.validator.PointValidator.__init__': ['lats', 'lons', 'values'],
 'pycomlink.validation.validator.PointValidator._get_cml_pair_indices': ['cml'],
 'pycomlink.validation.validator.PointValidator.get_time_series': ['self', 'cml', 'values'],
 'pycomlink.validation.validator.Validator.__init__': ['self'],
 'pycomlink.validation.validator.Validator.calc_stats': ['self', 'cml', 'time_series'],
 'pycomlink.validation.validator.calc_wet_dry_error': ['df_wet_truth', 'df_wet']}
