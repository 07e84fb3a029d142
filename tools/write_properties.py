"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
pr = "pycomlink/processing/"

prop("C01", "Constant baseline: dry passthrough, constant wet level, NaN on unknown",
 "For every signal series, wet mask and n >= 1, the constant baseline equals the signal at every dry sample (and at the first n samples), and during each wet period it stays at the mean of the n baseline values directly before the period starts, no matter what the signal does inside the period. "
 "Where the wet flag is NaN the baseline is NaN, and it remains NaN over directly following wet samples until the next dry sample. "
 "The result has the length of the input and does not depend on container (array, list, Series), dtype or memory layout.",
 ["inputs"], "all finite series x wet masks (bool/int/float with NaN) x n_average_last_dry",
 "The tests use two short fixed series with default n; wet-mask patterns (back-to-back events, event at the first/last sample, NaN runs) form an exponential space.",
 [pr+"baseline.py"], [("baseline_constant loop", pr+"baseline.py:baseline_constant")], [pr+"baseline.py:baseline_constant (return)"])

prop("C02", "Linear baseline: dry passthrough, straight line across each wet period",
 "For every signal series and wet mask (the first sample counts as dry), the linear baseline equals the signal at dry samples and, over each wet period enclosed by two dry samples, is the straight line between the signal at these two dry samples; a wet period with no dry sample after it has an undefined (NaN) baseline. "
 "A NaN wet flag makes the baseline NaN from the last dry sample before to the first dry sample after the gap it belongs to, unless NaNs are to be ignored, in which case the last known wet/dry state is continued. "
 "The result does not depend on container (array or Series), dtype or memory layout.",
 ["inputs"], "all finite series x wet masks with NaN x ignore_nan",
 "The tests use one fixed series; wet patterns at the series edges and NaN placement are an exponential space.",
 [pr+"baseline.py"], [("baseline_linear loop", pr+"baseline.py:baseline_linear")], [pr+"baseline.py:baseline_linear (return)"])

prop("C03", "k-R coefficients are the per-link ITU values for frequency and polarization",
 "For every frequency in 1-100 GHz and accepted polarization spelling, the k-R parameters returned for a link are the cubic interpolation of the selected ITU table (P.838-3 or P.838-2) for that link's own frequency and polarization, element by element, in every array shape and order, and xarray input keeps its coordinates. "
 "They are positive, agree with the table at its nodes, and do not depend on which other links are in the same call. "
 "A frequency outside 1-100 GHz, an unknown polarization, an unknown table name or mismatching shapes raises ValueError instead of returning numbers.",
 ["inputs"], "all frequencies in [1,100] GHz x polarization spellings x tables x array/xarray shapes",
 "The tests check a handful of frequencies on one table per case; mixed polarization arrays, shapes and invalid-element positions are unbounded.",
 [pr+"k_R_relation.py"], [("a_b", pr+"k_R_relation.py:a_b"), ("ITU tables", pr+"k_R_relation.py:ITU_table_2005")], [pr+"k_R_relation.py:a_b (return/raise)"])

prop("C04", "Rain rate is the exact inverse of the k-R power law with R_min cut-off",
 "For every attenuation A, path length L and power law (a, b) - given directly or through frequency, polarization and table - the rain rate R satisfies A = a R^b L for A >= 0, is 0 where that rate is below R_min or A is negative, and is NaN exactly where A is NaN. "
 "R is non-decreasing in A and non-increasing in L, and every element depends only on its own A. "
 "Any argument combination other than exactly one of (frequency and polarization) or (a and b) raises ValueError.",
 ["inputs", "configurations"], "all A (scalar, list, array, DataArray), L, f, pol, a, b, approximation, R_min",
 "Tests evaluate a few constants; the relation is a real-valued law over seven parameters.",
 [pr+"k_R_relation.py"], [("calc_R_from_A", pr+"k_R_relation.py:calc_R_from_A")], [pr+"k_R_relation.py:calc_R_from_A (return/raise)"])

prop("C05", "Labelled arrays are processed per time series and keep their labels",
 "Every processing function that accepts labelled arrays gives, for arguments with a time dimension, the same result as calling it separately on each individual time series with that series' own per-link parameters, for any number and order of the other dimensions; the result carries all these dimensions, the same time axis and the coordinates of its inputs. "
 "This holds however the arguments are passed (positionally, by keyword, left at their defaults), and a two-output function returns two labelled arrays. Links are matched by label, never by position: arguments whose labels are in a different order are either aligned or refused, and arguments that cover different links or different times are refused, never silently cut to the common part or filled up. "
 "A misspelled or missing argument raises an error instead of being dropped.",
 ["inputs", "configurations"], "all wrapped functions x dimension layouts x argument passing styles",
 "Tests use one layout per function; the product of functions, layouts and call styles is not sampled.",
 [pr+"xarray_wrapper.py"], [("xarray_apply_along_time_dim", pr+"xarray_wrapper.py"), ("argument binding", pr+"xarray_wrapper.py:_get_new_args_dict")],
 ["return of the decorated functions in baseline, blackout_gap_detection, k_R_relation, wet_antenna, nearby_rain_retrival"])

prop("C06", "Dynamic wet antenna attenuation obeys its recursion and bounds",
 "For every attenuation series, wet mask and parameters (maximum, sampling interval, time constant), the Schleiss 2013 wet antenna attenuation starts at 0 and at each later wet sample is the smallest of the observed attenuation, the maximum, and the previous value relaxed towards the maximum by 3*delta_t/tau of the remaining difference; at samples not flagged wet it is the smaller of the observed attenuation and the maximum. "
 "It therefore never exceeds the maximum or the observed attenuation after the first sample; where the attenuation is missing, the result is missing. "
 "Each value depends only on the present and past samples of the same link.",
 ["inputs", "histories"], "all series x wet masks x waa_max, delta_t, tau",
 "Tests use one fixed series and one parameter set.",
 [pr+"wet_antenna.py"], [("waa_schleiss_2013", pr+"wet_antenna.py:waa_schleiss_2013")], [pr+"wet_antenna.py:waa_schleiss_2013 (return)"])

prop("C07", "Rain-rate-dependent wet antenna models follow their published equations",
 "For every rain rate (scalar or array), frequency, temperature and antenna parameters, the Leijnse 2008 wet antenna attenuation is the ratio in dB of the transmission through antenna cover alone to that through cover plus a water film of thickness gamma*R^delta with the refractive index of water at that frequency and temperature, and the Pastorek 2021 one is A_max*(1-exp(-d*R^zeta)). "
 "Both are exactly 0 at R = 0, NaN for NaN rain rate, and Pastorek's stays in [0, A_max] and is non-decreasing in R. "
 "The permittivity of water used is the double-Debye formula of Liebe 1991.",
 ["inputs"], "all R, f, T and model parameters",
 "Tests compare eleven rain rates at default parameters.",
 [pr+"wet_antenna.py"], [("waa_leijnse_2008", pr+"wet_antenna.py:waa_leijnse_2008"), ("waa_pastorek_2021", pr+"wet_antenna.py:waa_pastorek_2021"), ("eps_water", pr+"wet_antenna.py:eps_water")],
 [pr+"wet_antenna.py returns"])

prop("C08", "Wet antenna attenuation derived from observed attenuation is consistent",
 "For every observed attenuation in the supported range, frequency, polarization, link length and model parameters, the wet antenna attenuation returned by the Leijnse and Pastorek inversions is the share w for which rain attenuation A_obs - w, converted to a rain rate with the k-R law of that link, produces w in the forward model (within the look-up-table resolution). "
 "It is 0 for A_obs = 0, never exceeds A_obs, is NaN where A_obs is NaN, and each element depends only on its own A_obs and its own link's parameters. "
 "Any negative observed attenuation raises ValueError.",
 ["inputs"], "all A_obs in [0, 1000 dB], f, pol, L, model parameters",
 "Tests compare a few tabulated values at default parameters only.",
 [pr+"wet_antenna.py"], [("waa_leijnse_2008_from_A_obs", pr+"wet_antenna.py"), ("waa_pastorek_2021_from_A_obs", pr+"wet_antenna.py")],
 [pr+"wet_antenna.py returns"])

prop("C09", "Blackout masks cover exactly the NaN gaps adjoining weak signal",
 "For every received-signal series and threshold, a start marker is set exactly at samples below the threshold that are followed by a NaN sample, and an end marker exactly at samples below the threshold that directly follow a NaN sample (the series being treated as circular). "
 "The mask derived from series and markers is True exactly at the NaN samples that are reached from a start marker without passing a valid sample, so it never covers a valid sample and always covers a gap from its beginning to its end or not at all. "
 "Combining the forward mask with the mask of the reversed series covers exactly the gaps that have a below-threshold sample on at least one side.",
 ["inputs"], "all series with NaN gaps x thresholds x dtypes, interpreted and compiled",
 "One fixed 10-sample series is tested; gap layouts (edges, single-sample gaps, adjacent gaps) are exponential.",
 [pr+"blackout_gap_detection.py"], [("get_blackout_start_and_end", pr+"blackout_gap_detection.py"), ("created_blackout_gap_mask_from_start_end_markers", pr+"blackout_gap_detection.py")],
 [pr+"blackout_gap_detection.py returns"])

prop("C10", "Great-circle distances and the link endpoint distance matrix are correct",
 "For all coordinates the distance between two points is the great-circle distance on a sphere of radius 6367 km: finite, non-negative, symmetric, zero for identical points, at most half the circumference, and independent of adding 360 degrees to a longitude. "
 "The endpoint distance data set holds, for every ordered pair of different links, the distances from end a/b of the first to end a/b of the second under the right variable name and labels, and 0 for a link with itself. "
 "Links may be given as lists or arrays with integer or string ids in any order.",
 ["inputs"], "all coordinates incl. poles, date line, antipodes; all networks and id types",
 "Tests use a single network of a few near links; symmetric a/b mix-ups and extreme coordinates are not reached.",
 ["pycomlink/spatial/helper.py", pr+"wet_dry/nearby_wetdry.py"], [("haversine", "pycomlink/spatial/helper.py:haversine"), ("calc_distance_between_cml_endpoints", pr+"wet_dry/nearby_wetdry.py")],
 ["returns of both functions"])

prop("C11", "Nearby-link wet/dry classification follows the Overeem 2016 rule",
 "For every network and signal history, a link is classified only where more than min_links links (itself included) have all four endpoint distances below the radius and more than min_links of these have data; it is wet exactly when the median over these links of the signal drop below the trailing maximum, and of that drop per km, are below both thresholds, or when a neighbouring step (one before, one or two after) of the same link was itself so classified with an own drop below -2 dB. "
 "Elsewhere the result is NaN, never a guessed class, and the F score is the trailing-window sum of the link's specific drop minus that median, scaled by the interval in hours. "
 "The trailing maximum needs min_hours of data and no result depends on links outside the radius, on the order of the links, or changes the caller's inputs.",
 ["inputs", "configurations"], "all networks x pmin histories with gaps x radius, thresholds, min_links, interval, timeperiod, min_hours",
 "Tests use one example network and parameter set.",
 [pr+"wet_dry/nearby_wetdry.py"], [("nearby_wetdry", pr+"wet_dry/nearby_wetdry.py:nearby_wetdry")], [pr+"wet_dry/nearby_wetdry.py:nearby_wetdry (return)"])

prop("C12", "Nearby-link rain retrieval: reference level, correction and rain rate",
 "For every network and history the reference level is the median of (pmin+pmax)/2 over the dry steps of the trailing window (NaN if fewer than min_periods); the corrected pmin equals pmin where the step is wet and pmin is below the reference and equals the reference otherwise, and the corrected pmax equals pmax only where corrected pmin and pmax are both below the reference. "
 "The rain rate is alpha times the power-law rate of the maximum plus (1-alpha) times that of the minimum attenuation after subtracting waa_max and clipping at zero, using each link's own length and power law; it is never negative and exactly 0 at non-wet steps with a reference. "
 "It is NaN where the F score is at or below the threshold (when a threshold is given) or the reference is missing.",
 ["inputs", "configurations"], "all pmin/pmax/wet/F histories with NaN x parameters x array/xarray layout",
 "Tests use one example set with default parameters.",
 [pr+"nearby_rain_retrival.py"], [("nearby_determine_reference_level", pr+"nearby_rain_retrival.py"), ("nearby_correct_received_signals", pr+"nearby_rain_retrival.py"), ("nearby_rainfall_retrival", pr+"nearby_rain_retrival.py")],
 [pr+"nearby_rain_retrival.py returns"])

prop("C13", "Inverse-distance interpolation is the weighted mean of the nearest points",
 "For every set of points, values and target grid, the interpolated value at a grid point is the mean of the values of its nnear nearest points no farther than max_distance, weighted by 1/distance^p; it equals the point's value where grid point and point coincide, lies within the range of the used values, and is NaN exactly where no point is close enough. "
 "Points with NaN value are left out (unless exclusion of NaNs is switched off), and if no valid point remains the grid is all NaN, for grids of any shape and numeric type. "
 "The result has the shape of the grid and does not depend on the order of the points.",
 ["inputs", "configurations"], "all point sets x values with NaN x grids x nnear, p, max_distance",
 "Tests use a few points with fixed parameters.",
 ["pycomlink/spatial/idw.py", "pycomlink/spatial/interpolator.py"], [("Invdisttree.__call__", "pycomlink/spatial/idw.py"), ("IdwKdtreeInterpolator", "pycomlink/spatial/interpolator.py")],
 ["return of Invdisttree.__call__ and IdwKdtreeInterpolator.__call__"])

prop("C14", "Reusing an interpolator never changes its result",
 "For every sequence of calls on one interpolator object (inverse distance or kriging) - with changing points, values, NaN patterns, grids, number of neighbours, exponent or maximum distance, and with arguments that the caller modifies in place between calls - each call returns what a newly created object would return for the same arguments. "
 "Results handed out earlier do not change afterwards, and concurrent use of separate objects does not interfere.",
 ["histories"], "all call histories on a reused interpolator",
 "Tests make at most two calls per object; staleness of cached neighbour searches needs particular histories.",
 ["pycomlink/spatial/idw.py", "pycomlink/spatial/interpolator.py"], [("cached k-d tree", "pycomlink/spatial/interpolator.py:IdwKdtreeInterpolator"), ("cached neighbour query", "pycomlink/spatial/idw.py:Invdisttree.__call__")],
 ["return of every call in a recorded history"])

prop("C15", "Ordinary kriging solves the kriging system of the configured variogram",
 "For every grid and set of distinct points of which at least two have a value, the kriging interpolator returns the ordinary-kriging estimate (unbiased weights summing to one) for the configured variogram model and parameters, using only the non-NaN points and, if requested, only the closest n points; with all values NaN the grid is all NaN. "
 "The climatological variogram parameters for a date and time scale are the Van de Beek 2012 formula for that day of the year, with nugget 0.1 of the sill and range in km. "
 "If no grid is passed, a regular grid of the given resolution enclosing all points is used, and without a resolution ValueError is raised.",
 ["inputs", "configurations"], "all point sets, values with NaN, variogram models and parameters, dates and time scales",
 "Tests compare one small example per backend.",
 ["pycomlink/spatial/interpolator.py"], [("OrdinaryKrigingInterpolator", "pycomlink/spatial/interpolator.py"), ("clim_var_param", "pycomlink/spatial/interpolator.py"), ("default grid", "pycomlink/spatial/interpolator.py:_parse_grid_kwargs")],
 ["return of OrdinaryKrigingInterpolator.__call__, clim_var_param"])

prop("C16", "Coverage mask marks exactly the grid points near a link path",
 "For every list of links and 2-D grid, a grid point is marked covered if its planar distance to the straight path of at least one link is below the maximum distance, and not covered if it is farther than that from all paths (up to the polygon approximation of the rounded buffer). "
 "The mask has the shape of the grid with rows and columns in place, and adding links never un-covers a point.",
 ["inputs"], "all link lists x grids x maximum distances", "No test calls this function.",
 ["pycomlink/spatial/coverage.py"], [("calc_coverage_mask", "pycomlink/spatial/coverage.py")], ["return of calc_coverage_mask"])

prop("C17", "STFT wet/dry classification thresholds the normalised spectral difference",
 "For every signal series and window, a sample is classified wet exactly when the difference of mean low- and high-frequency power (split at f_divide), each frequency normalised by its mean over the dry reference period, exceeds the threshold in the window centred on that sample; samples without a full window are dry and have NaN power, except that with mirroring requested the samples at the end are judged by the half window up to them continued by its mirror image. "
 "The dry reference period is the given one or, if only a length is given, the stretch of that length with the smallest standard deviation in the series. "
 "Outputs have the length of the series, and supplying neither or both ways of choosing the dry period, or only one bound of it, raises an error.",
 ["inputs", "configurations"], "all series x window lengths (odd/even) x f_divide, threshold, dry period choice, own window function or spectrogram",
 "One example series and parameter set is tested.",
 [pr+"wet_dry/stft.py"], [("stft_classification", pr+"wet_dry/stft.py"), ("find_lowest_std_dev_period", pr+"wet_dry/stft.py")], ["return of both functions"])

prop("C18", "MLP wet/dry: right model, right window, NaN where input is missing",
 "For every pair of channel series of at least 41 steps, the probabilities at a time step are those of the selected pre-trained network for the 40 detrended samples of channel 1 followed by those of channel 2 belonging to that step (causal first differences for the online models, samples from 20 before to 19 after minus the centred 12 h median, taken from at least 2 h of values, for the others). "
 "A row is NaN exactly when its window is incomplete or contains a NaN, all other rows are two probabilities in [0, 1], and there is one row per time step. "
 "Adding a constant to a channel does not change the result, and an unknown model name raises ValueError.",
 ["inputs"], "all pairs of series with gaps x four models", "Tests use one example link.",
 [pr+"wet_dry/mlp.py"], [("mlp_wet_dry", pr+"wet_dry/mlp.py")], ["return of mlp_wet_dry"])

prop("C19", "PyTorch CNN predictions land on their own link and time step",
 "For every labelled signal array (any number, order and type of link ids, any length of at least one window), batch size and scripted model, the prediction for a link and time step is the model output for the window of that link's own channels whose last sample lies reflength/2 - 1 steps after it (reflength at least 2 and at most twice the window), and is NaN at steps without such a window. "
 "The result does not depend on the batch size or on the other links, and contains the original data and coordinates unchanged. "
 "Every window is predicted exactly once.",
 ["inputs", "configurations"], "all arrays x window sizes x batch sizes x reference lengths x model output shapes", "Tests run one shape with a mocked model.",
 [pr+"pytorch_utils/run_inference.py", pr+"pytorch_utils/pytorch_utils.py"], [("rolling_window", pr+"pytorch_utils/run_inference.py"), ("batchify_windows", pr+"pytorch_utils/run_inference.py"), ("redistribute_results", pr+"pytorch_utils/run_inference.py"), ("build_dataloader", pr+"pytorch_utils/pytorch_utils.py")],
 ["return of rolling_window, batchify_windows, run_inference, redistribute_results, cnn_wd"])

prop("C20", "TensorFlow CNN predictions land on their own link and time step",
 "For every data set, the samples built for the network are exactly the windows of seq_len consecutive, completely finite steps of each requested link with the input variables in the requested order, and each predicted probability is stored at the link and at the last time step of its window; all other cells are NaN. "
 "Each input variable is standardised to mean 0 and variance 1 over all samples independently of the other variables. "
 "Links unknown to the data set or shorter than the window are skipped without shifting the predictions of the others; predictions, link ids and time indices of different lengths are refused.",
 ["inputs", "configurations"], "all data sets with gaps x link subsets/orders x seq_len x batch size", "Tests run one shape.",
 [pr+"tensorflow_utils/inference_utils.py", pr+"tensorflow_utils/run_inference.py"], [("create_samples", pr+"tensorflow_utils/inference_utils.py"), ("scale_features", pr+"tensorflow_utils/inference_utils.py"), ("store_predictions", pr+"tensorflow_utils/inference_utils.py")],
 ["return of create_samples, scale_features, store_predictions, wet_dry_1d_cnn"])

prop("C21", "The model cache only ever serves complete files of the requested URL",
 "Whatever happens to downloads (server error, truncated or interrupted transfer, process killed in the middle, concurrent downloads), a file returned from the model cache has exactly the bytes served for the requested URL: a failed download raises and leaves the cache directory as it was, a killed one leaves no file that a later call would use, and a previously cached file stays intact. "
 "A cached file is reused without network access unless a forced download is requested, which then replaces it, and different URLs never share a cached file. "
 "Listing shows exactly the cached model files and clearing removes the files of that cache directory only.",
 ["fault_sequences", "crash_points", "histories"], "all sequences of downloads with faults, over URLs and cache states", "Tests mock the download; no fault is injected.",
 [pr+"pytorch_utils/inference_utils.py", pr+"tensorflow_utils/inference_utils.py"], [("download_and_cache_model", pr+"pytorch_utils/inference_utils.py"), ("download_and_cache", pr+"tensorflow_utils/inference_utils.py")],
 ["cache directory contents and HTTP request log after each operation"])

prop("C22", "Reading cmlh5 files reproduces every link, channel, sample and attribute",
 "For every valid cmlh5 file, the list returned has one data set per link in the file with all its channels, and each data set holds exactly the stored transmitted and received levels at the stored times (seconds since 1970 as UTC time stamps), the link and channel ids, site coordinates, polarization, the frequency in GHz, and as length the great-circle distance of its sites in km. "
 "No sample, channel or link is lost, duplicated, reordered in time or attributed to another one. "
 "The bundled example files, including the min-max one, can be read.",
 ["inputs"], "all cmlh5 files: numbers of links/channels, lengths, NaNs, dtypes, differing channel time axes", "Tests read the two bundled example files and check shapes and some coords.",
 ["pycomlink/io/cmlh5_to_xarray.py", "pycomlink/io/examples.py"], [("read_cmlh5_file_to_xarray", "pycomlink/io/cmlh5_to_xarray.py")], ["return of read_cmlh5_file_to_xarray"])

prop("C23", "Wet/dry performance metrics count every pair exactly once",
 "For all reference and predicted arrays of any equal shape, pairs with a NaN on either side are excluded and counted, the four contingency counts add up to the number of remaining pairs, and every reported count, rate and the Matthews correlation equal their textbook definitions on these pairs. "
 "Total and NaN counts refer to array elements, all rates lie in [0, 1] or are NaN when undefined, the correlation lies in [-1, 1] and is 0 when nothing is predicted wet. "
 "The result does not depend on the order of the pairs or, apart from the deprecated error-rate function for boolean arrays, on numeric type. The deprecated error-rate functions announce themselves by a warning.",
 ["inputs"], "all pairs of (bool/int/float with NaN) arrays of any shape", "Tests use two fixed arrays.",
 ["pycomlink/validation/stats.py"], [("calc_wet_dry_performance_metrics", "pycomlink/validation/stats.py")], ["return of calc_wet_dry_performance_metrics, calc_wet_error_rates"])

prop("C24", "Rainfall error metrics equal their definitions on all valid pairs",
 "For all reference and predicted rain arrays of equal shape, correlation, coefficient of variation, RMSE, MAE, sums, means and the threshold-based wet/dry rates equal their definitions over the pairs without NaN, a value counting as wet when it exceeds the threshold. "
 "The false-wet (missed-wet) precipitation rate is the mean predicted (reference) rain of the false-wet (missed-wet) pairs, and the pair counts refer to array elements. "
 "The threshold only affects the wet/dry based figures, and the result does not depend on the order of the pairs.",
 ["inputs"], "all pairs of rain arrays with NaN, any shape, any threshold", "Tests use two fixed arrays.",
 ["pycomlink/validation/stats.py"], [("calc_rain_error_performance_metrics", "pycomlink/validation/stats.py")], ["return of calc_rain_error_performance_metrics"])

prop("C25", "Temporal aggregation puts every sample into its one right interval",
 "For every time-indexed table and target index, each sample within the common period is aggregated into exactly one target time stamp of that period: the first one at or after it for label 'right', the last one at or before it for label 'left'; samples outside the common period, or without such a stamp in it, are not used and the aggregate is the given function over exactly these samples. "
 "Time stamps denote the same instants in the result as in the inputs for any combination of time zones (a target index without zone is read in the given zone; a local time that does not exist or is ambiguous there is refused). "
 "The inputs are not modified and any other label raises an error.",
 ["inputs", "configurations"], "all tables, irregular indices, target indices, labels, time zones, aggregation functions", "No test covers this function.",
 ["pycomlink/util/temporal.py"], [("aggregate_df_onto_DatetimeIndex", "pycomlink/util/temporal.py")], ["return of aggregate_df_onto_DatetimeIndex"])

prop("C26", "Grid validation compares a link with the path average of its own pixels",
 "For every regular gridded data set with finite values (at least 3 x 3 pixels) and link path inside the grid, the reference time series is, at each grid time strictly between the first sample of channel 1 and the last of channel 2, the sum of the grid values weighted by the share of the path inside each pixel, with weights that are non-negative and sum to one. "
 "Link data resampled to the grid's time stamps is the mean of the samples falling in the interval that ends ('right') or starts ('left') at each time stamp. "
 "The series of one link is not affected by links processed before with the same validator.",
 ["inputs", "histories"], "all grids, link paths, time axes, labels", "The only test imports the module.",
 ["pycomlink/validation/validator.py"], [("GridValidator.get_time_series", "pycomlink/validation/validator.py"), ("GridValidator.resample_to_grid_time_series", "pycomlink/validation/validator.py")], ["returns of both methods"])

prop("C27", "Processing leaves its inputs untouched and is repeatable, also in threads",
 "No public processing, spatial or validation function modifies the arrays, labelled arrays, data sets, tables or dictionaries passed to it, nor module-level tables or default arguments. "
 "Calling it again with the same arguments, after any other calls, gives the same result, and calling functions concurrently from several threads on independent inputs gives the same results as calling them one after the other. "
 "A returned object shares no memory with later results.",
 ["inputs", "histories", "schedules"], "all public functions x inputs x call histories x thread schedules", "Tests never compare inputs before and after, nor call functions concurrently.",
 [pr, "pycomlink/spatial/", "pycomlink/validation/", "pycomlink/util/"], [("copy-before-write in each function", "see files")], ["argument snapshots before/after each call; results of repeated and concurrent calls"])

prop("C28", "Compiled and interpreted execution agree and stay inside array bounds",
 "For every input accepted by the functions with compiled inner loops (baselines, Schleiss wet antenna, blackout mask, inverse-distance interpolation), compiled and interpreted execution give the same result for all accepted dtypes, containers and memory layouts. "
 "Series of different lengths raise an error in both; no array element outside the bounds of an array is ever read or written, and the result never contains values from uninitialised memory.",
 ["inputs", "configurations"], "all inputs x {interpreted, compiled, compiled with bounds checks}", "The test suite runs interpreted only.",
 [pr+"baseline.py", pr+"wet_antenna.py", pr+"blackout_gap_detection.py", "pycomlink/spatial/idw.py"], [("numba.jit(nopython=True) loops", "see files")], ["returns of the public functions in three separately configured processes"])

prop("C29", "Min-max attenuation and its rain rate follow the Ostrometzky method",
 "For every set of min/max transmitted and received levels, the rain attenuation at a step is the bias-corrected maximum attenuation minus the smallest bias-corrected minimum attenuation of that step and the preceding `window` steps, clipped at zero, and NaN for the first `window` steps; missing values count as the rounded mean of the valid ones. "
 "The rain rate from it inverts the power law with the coefficient enlarged by (ln k + Euler's gamma)^b, is 0 below R_min or for negative attenuation, and NaN where the attenuation is NaN. "
 "The four input series are not modified.",
 ["inputs", "configurations"], "all min/max series with NaN x gT, gR, window, k, L, f, pol, a, b, R_min", "No test covers the attenuation step; rain rates are tested for a few values.",
 [pr+"min_max.py", pr+"k_R_relation.py"], [("_calc_A_min_max", pr+"min_max.py"), ("calc_R_from_A_min_max", pr+"k_R_relation.py")], ["returns of both functions"])

prop("C30", "The processing chain keeps links independent and propagates missing data",
 "Running the documented chain (signal to wet/dry, baseline, attenuation, wet antenna correction, rain rate, map) on a data set gives for every link and channel the same rain rate as running it on that link alone, for any number, order and subset of links and any dimension order. "
 "A step with missing signal never has a finite rain rate, a dry step with signal has zero rain, a rain rate is never negative or infinite, and it is defined as long as neither signal nor classification has been missing. "
 "The rain map of a step equals the interpolation of that step's link values only.",
 ["inputs", "histories"], "all data sets (links, channels, gaps, orders) through the whole chain", "One workflow test checks a single data set without permutations or gaps.",
 [pr, "pycomlink/spatial/interpolator.py", "pycomlink/io/examples.py"], [("the composition of the processing functions", "see files")], ["rain rate DataArray and grid at the end of the chain"])

prop("C31", "Omitted arguments mean the documented defaults, in the documented order",
 "For every public processing, spatial and validation function and for the interpolator classes, and for all other arguments, a call that leaves out optional arguments gives the same outcome as the call in which the documented default values are written out (e.g. n_average_last_dry=1, R_min=0.1, ITU_2005 tables, waa_max=2.3 and alpha=0.33 in the nearby retrieval, radius 15 km and thresholds -1.4/-0.7 in the nearby classification, nnear=8 and p=2 in the map interpolation). "
 "It makes no difference whether arguments are passed by keyword or by position in the documented order, including trailing optional ones.",
 ["inputs", "configurations"], "all public functions x arguments x subsets of omitted arguments x positional/keyword spelling", "Tests mostly use one spelling per function and compare against values recorded with it; a default that only matters for some inputs is not noticed.",
 [pr, "pycomlink/spatial/", "pycomlink/validation/", "pycomlink/util/"], [("signatures of the public functions", "see files"), ("argument binding of wrapped functions", pr+"xarray_wrapper.py")], ["outcomes of the same call in different spellings"])

prop("C32", "The wet/dry CNNs compute with the model that was asked for",
 "For every history of requests, get_model, cnn_wd and wet_dry_1d_cnn compute with the model stored at the requested location: for a local path the file as it is now, for a URL the content downloaded for exactly this URL (and cache directory) the first time or, with force_download, this time; wet_dry_1d_cnn without a location uses the published model. "
 "A cached model is used without any request, also when the server is down or has a newer version; force_download always requests. "
 "A missing or damaged file, an unsupported kind of file name, or a failed download raises instead of predicting, and a failed forced download leaves the earlier cached model usable. Concurrent requests for different URLs each get their own model.",
 ["histories", "faults", "schedules"], "all sequences of requests (paths, URLs, force_download, changing files and server content, failing server), also from threads", "No test requests a model twice, from a changing source, or from a failing server.",
 [pr+"pytorch_utils/inference_utils.py", pr+"pytorch_utils/pytorch_utils.py", pr+"pytorch_utils/run_inference.py", pr+"tensorflow_utils/inference_utils.py", pr+"tensorflow_utils/run_inference.py"],
 [("get_model", pr+"pytorch_utils/inference_utils.py:get_model"), ("resolve_model_paths", pr+"tensorflow_utils/inference_utils.py:resolve_model_paths")], ["output of the returned model / predictions; request log of the server"])

prop("C33", "Importing and using pycomlink leaves the process and the machine alone",
 "Importing the package or calling its processing, spatial, validation, io and inference functions - also when the call raises - does nothing to the process or the machine besides returning a value: the states of the global random generators (numpy, random), numpy's floating point error mode and print options, the warning filters, the working directory, the environment, the module search path, the options of xarray, pandas, matplotlib and logging, signal handlers, time-outs and resource limits, and PyTorch's gradient mode are as before, nothing is written to disk, no program is started and no connection opened. "
 "Exceptions are what was asked for: downloading a model from the given URL into the cache directory, and the TensorFlow installer, which runs (once, pip install of tensorflow, or of tensorflow[and-cuda] if nvidia-smi succeeds) only if TensorFlow is missing and auto_install / install_tensorflow is true or ALLOW_TF_AUTOINSTALL is 1; without that a missing TensorFlow is an ImportError that names it, and a failed installation raises and is tried again by the next call. "
 "Every module except the PyTorch part can be imported without TensorFlow and PyTorch installed, importing never loads TensorFlow, and only the PyTorch part loads PyTorch.",
 ["inputs", "histories"], "all calls of public functions (valid and refused), all import orders with either library missing, all sequences of requests for TensorFlow", "No test looks at what a call does besides its result; none runs without the libraries or with an installer.",
 ["pycomlink/__init__.py", pr+"tensorflow_utils/lazy_tf.py", pr+"tensorflow_utils/__init__.py", pr+"pytorch_utils/__init__.py", pr+"tensorflow_utils/run_inference.py", pr+"pytorch_utils/pytorch_utils.py", "pycomlink/io/cmlh5_to_xarray.py", pr+"wet_dry/mlp.py"],
 [("get_tf", pr+"tensorflow_utils/lazy_tf.py:get_tf"), ("ensure_tensorflow_installed", pr+"tensorflow_utils/lazy_tf.py:ensure_tensorflow_installed"), ("predict_batch", pr+"pytorch_utils/pytorch_utils.py:predict_batch")], ["process state before and after each call; audit events; command lines of the recording stand-ins for pip and nvidia-smi"])

prop("C34", "Only the values of the arguments matter, not how they are stored",
 "For every public processing, spatial and validation function and all arguments, the outcome is the same (up to the rounding of the last bits) when arrays with the same values - plain, inside a DataArray, as variable of a Dataset, in lists - are stored in another way: in Fortran instead of C order, as views with gaps or with reversed axes, read-only, mapped from a file; and when a number or string is a numpy instead of a Python scalar or the reverse. "
 "Numbers in the other byte order give the same outcome or are refused with an exception, but are never read as other numbers.",
 ["inputs", "memory layouts"], "all public functions x arguments x ways to store each array, interpreted and compiled", "Tests pass freshly created C-ordered arrays and Python scalars only; slices, transposed and memory-mapped data are what users pass.",
 [pr, "pycomlink/spatial/", "pycomlink/validation/"], [("compiled loops", pr+"baseline.py; "+pr+"wet_antenna.py; "+pr+"blackout_gap_detection.py; pycomlink/spatial/idw.py"), ("flattening and reshaping of grids", "pycomlink/spatial/interpolator.py; pycomlink/spatial/coverage.py"), ("windows", pr+"pytorch_utils/run_inference.py; "+pr+"tensorflow_utils/inference_utils.py")], ["outcomes of the same call with differently stored arguments"])

prop("C35", "Continuous use does not accumulate memory, files, threads or networks",
 "A process may call the public functions any number of times, each time on new data, and reuse one interpolator, search tree or grid validator with new data: the library keeps at most a bounded amount of what went in or came out of earlier calls, so that the arrays, tables and link objects of finished calls are released and memory stops growing. "
 "Nor do calls leave behind a number of open files, threads, child processes, loaded networks, tensors or (partial) files on disk that grows with the number of calls, also when they fail with an exception. Caches of bounded size and one cached file per model URL are allowed.",
 ["histories", "faults"], "all sequences of calls of the public functions on new data and of uses of one long-lived object, with and without failures", "Tests make a few calls in a short process; leaks show up after days of processing thousands of links.",
 [pr, "pycomlink/spatial/", "pycomlink/validation/", "pycomlink/io/"], [("state kept between uses", "pycomlink/spatial/idw.py; pycomlink/spatial/interpolator.py; pycomlink/validation/validator.py"), ("files", "pycomlink/io/cmlh5_to_xarray.py; "+pr+"pytorch_utils/inference_utils.py; "+pr+"tensorflow_utils/inference_utils.py"), ("networks", pr+"pytorch_utils/run_inference.py; "+pr+"tensorflow_utils/run_inference.py"), ("calls", pr+"xarray_wrapper.py; "+pr+"baseline.py; "+pr+"k_R_relation.py")], ["weak references to arguments and results", "traced memory, descriptors, threads, networks and files before and after many calls"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
