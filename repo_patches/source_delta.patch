From 0f54c9a6061ba3759f9805ee3735cae97fa94262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:40 +0000
Subject: [PATCH 01/30] fix: baseline_constant returned a baseline where wet is
 NaN

NaN in wet was cast to True, so the documented NaN baseline was never set.
---
 pycomlink/processing/baseline.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index ee8d071..17875a6 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -43,7 +43,7 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 
     return _numba_baseline_constant(
         trsl=np.asarray(trsl, dtype=np.float64),
-        wet=np.asarray(wet, dtype=bool),
+        wet=np.asarray(wet, dtype=np.float64),
         n_average_last_dry=n_average_last_dry,
     )
 
@@ -52,12 +52,14 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 def _numba_baseline_constant(trsl, wet, n_average_last_dry):
     baseline = np.zeros_like(trsl, dtype=np.float64)
     baseline[0:n_average_last_dry] = trsl[0:n_average_last_dry]
+    baseline[0:n_average_last_dry][np.isnan(wet[0:n_average_last_dry])] = np.nan
     for i in range(n_average_last_dry, len(trsl)):
         if np.isnan(wet[i]):
             baseline[i] = np.nan
-        elif wet[i] & ~wet[i - 1]:
+        elif wet[i] and wet[i - 1] == 0:
             baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])
-        elif wet[i] & wet[i - 1]:
+        elif wet[i]:
+            # wet before or, if `wet` was NaN, not known, i.e. stay at NaN
             baseline[i] = baseline[i - 1]
         else:
             baseline[i] = trsl[i]
-- 
2.43.0


From 3c02221d0f97d5c5598892f583d4cb618a5f1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:17 +0000
Subject: [PATCH 02/30] fix: baseline_linear returned 0 for a wet period at the
 end of the series

Without a dry value after the wet period there is nothing to interpolate to.
---
 pycomlink/processing/baseline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index 17875a6..501dea1 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -160,4 +160,7 @@ def _numba_baseline_linear(rsl, wet, ignore_nan=False):
         else:
             # print('This should be impossible')
             raise
+    # there is no dry value to interpolate to if the time series ends wet
+    if last_i_is_wet:
+        baseline[last_dry_i + 1 :] = np.nan
     return baseline
-- 
2.43.0


From c4172762b544ca89adf2d5571645ce07653e3023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:26 +0000
Subject: [PATCH 03/30] fix: get_blackout_start_and_end failed for
 xarray.DataArray input

The xarray wrapper declared one output but the function returns two.
---
 pycomlink/processing/blackout_gap_detection.py | 2 +-
 pycomlink/processing/xarray_wrapper.py         | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index cc410c7..2e430f9 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -3,7 +3,7 @@ import numba
 from .xarray_wrapper import xarray_apply_along_time_dim
 
 
-@xarray_apply_along_time_dim()
+@xarray_apply_along_time_dim(n_outputs=2)
 def get_blackout_start_and_end(rsl, rsl_threshold):
     """
     Identify nan gaps as blackout gaps caused by heavy attenuation based on
diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 77b9da7..2d5662a 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -4,13 +4,18 @@ import inspect
 import xarray as xr
 
 
-def xarray_apply_along_time_dim():
+def xarray_apply_along_time_dim(n_outputs=1):
     """
     A decorator to apply CML processing function along the time dimension of DataArrays
 
     This will work if the decorated function takes 1D numpy arrays, which hold the
     CML time series data, as arguments. Additional argument are also handled.
 
+    Parameters
+    ----------
+    n_outputs : int
+        Number of time series returned by the decorated function
+
     """
 
     def decorator(func):
@@ -44,7 +49,7 @@ def xarray_apply_along_time_dim():
                     func,
                     *list(new_args_dict.values()),
                     input_core_dims=input_core_dims,
-                    output_core_dims=[["time"]],
+                    output_core_dims=[["time"]] * n_outputs,
                     vectorize=True,
                 )
 
-- 
2.43.0


From 1242a4dd2b680dc395cb6a128bcf92e276989947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:31 +0000
Subject: [PATCH 04/30] fix: xarray wrapper silently dropped unknown and
 missing arguments

A misspelled keyword was ignored (and the default used) for DataArray input.
Bind the arguments to the signature so that this raises TypeError, as for
numpy input.
---
 pycomlink/processing/xarray_wrapper.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 2d5662a..1043512 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -69,13 +69,6 @@ def _get_new_args_dict(func, args, kwargs):
     xarray.apply_ufunc in the xarray wrapper.
 
     """
-    new_args_dict = OrderedDict()
-    for i, (arg, parameter) in enumerate(inspect.signature(func).parameters.items()):
-        if i < len(args):
-            new_args_dict[arg] = args[i]
-        elif arg in kwargs.keys():
-            new_args_dict[arg] = kwargs[arg]
-        else:
-            new_args_dict[arg] = parameter.default
-
-    return new_args_dict
+    bound_args = inspect.signature(func).bind(*args, **kwargs)
+    bound_args.apply_defaults()
+    return OrderedDict(bound_args.arguments)
-- 
2.43.0


From f96c1661cb2c2efa39615d765489f5fe40eaeffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:38 +0000
Subject: [PATCH 05/30] fix: waa_leijnse_2008 and waa_pastorek_2021 failed for
 scalar R

Scalars are documented as valid input, item assignment does not work on them.
---
 pycomlink/processing/wet_antenna.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/wet_antenna.py b/pycomlink/processing/wet_antenna.py
index 770d465..a4106f2 100644
--- a/pycomlink/processing/wet_antenna.py
+++ b/pycomlink/processing/wet_antenna.py
@@ -293,7 +293,7 @@ def waa_leijnse_2008(
     waa = 10 * np.log10(np.abs((x1 + x2 + x3 + x4) / (2 * n_water * (y1 + y2))) ** 2)
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
-    waa[R == 0] = 0
+    waa = np.where(R == 0, 0, waa)
 
     return waa
 
@@ -416,7 +416,7 @@ def waa_pastorek_2021(
     waa = A_max * (1 - np.exp(-d * (R**zeta)))
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
-    waa[R == 0] = 0
+    waa = np.where(R == 0, 0, waa)
 
     return waa  # @xarray_apply_along_time_dim()
 
-- 
2.43.0


From 95e2167e13d115cfb75fc3e1b0194265c544994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:05 +0000
Subject: [PATCH 06/30] fix: IDW interpolation reused stale neighbours

The cached neighbour query ignored max_distance, and the cached points and
query points were references that the caller could change in place.
---
 pycomlink/spatial/idw.py          | 9 +++++++--
 pycomlink/spatial/interpolator.py | 5 +++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index 8eaf584..b4baa3e 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -68,7 +68,8 @@ class Invdisttree(object):
 
     def __init__(self, X, leafsize=10, stat=0):
         self.X = np.asarray(X, dtype="float")
-        self.tree = KDTree(X, leafsize=leafsize)  # build the tree
+        # build the tree with a copy of `X`, which might be changed by the caller
+        self.tree = KDTree(X, leafsize=leafsize, copy_data=True)
         self.stat = stat
         self.q = None
 
@@ -99,6 +100,8 @@ class Invdisttree(object):
             and np.array_equal(nnear, self.nnear)
             and hasattr(self, "eps")
             and np.array_equal(eps, self.eps)
+            and hasattr(self, "max_distance")
+            and np.array_equal(max_distance, self.max_distance)
         ):
             # Do nothing here
             # print 'reuse `distances`'
@@ -107,9 +110,11 @@ class Invdisttree(object):
             self.distances, self.ix = self.tree.query(
                 q, k=nnear, eps=eps, distance_upper_bound=max_distance
             )
-            self.q = q
+            # copy, since `q` might be changed in place by the caller
+            self.q = q.copy()
             self.nnear = nnear
             self.eps = eps
+            self.max_distance = max_distance
 
         self.z = z
 
diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 973c22a..7f4b913 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -103,8 +103,9 @@ class IdwKdtreeInterpolator(PointsToGridInterpolator):
             # print('Building new `Invdistree`')
             idw = Invdisttree(X=list(zip(x, y)))
             self.idw = idw
-            self.x = x
-            self.y = y
+            # copy, since `x` and `y` might be changed in place by the caller
+            self.x = x.copy()
+            self.y = y.copy()
 
         zi = idw(
             q=list(zip(xi, yi)),
-- 
2.43.0


From 5cca15a450f3615d19aaee62ba9ef73e9d79be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:10 +0000
Subject: [PATCH 07/30] fix: interpolation of all-NaN values failed for integer
 grids

---
 pycomlink/spatial/interpolator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 7f4b913..89c3706 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -54,9 +54,7 @@ class PointsToGridInterpolator(with_metaclass(abc.ABCMeta, object)):
             x_list=x, y_list=y, xgrid=xgrid, ygrid=ygrid, resolution=resolution
         )
         if (~pd.isnull(z)).sum() == 0:
-            zgrid = np.zeros_like(self.xgrid)
-            zgrid[:] = np.nan
-            self.zgrid = zgrid
+            self.zgrid = np.full(np.shape(self.xgrid), np.nan)
 
         else:
             zi = self._interpol_func(
-- 
2.43.0


From 31c4115f25c0f79058d2c7455fd368e90205345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:15 +0000
Subject: [PATCH 08/30] fix: calc_coverage_mask used cascaded_union, which
 shapely removed

---
 pycomlink/spatial/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/coverage.py b/pycomlink/spatial/coverage.py
index e218513..7b6c146 100644
--- a/pycomlink/spatial/coverage.py
+++ b/pycomlink/spatial/coverage.py
@@ -49,7 +49,7 @@ def calc_coverage_mask(cml_list, xgrid, ygrid, max_dist_from_cml):
             ).buffer(max_dist_from_cml, cap_style=1)
         )
 
-    cml_multi_line = ops.cascaded_union(cml_lines)
+    cml_multi_line = ops.unary_union(cml_lines)
 
     # Generate list of grid points
     grid_points = []
-- 
2.43.0


From 2cb9b787f1460873aa687cd1ba97fb9d0b6047e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:22 +0000
Subject: [PATCH 09/30] fix: haversine returned NaN for some antipodal points

---
 pycomlink/spatial/helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomlink/spatial/helper.py b/pycomlink/spatial/helper.py
index 70b692e..073a162 100644
--- a/pycomlink/spatial/helper.py
+++ b/pycomlink/spatial/helper.py
@@ -24,6 +24,8 @@ def haversine(lon1, lat1, lon2, lat2):
     dlon = lon2 - lon1
     dlat = lat2 - lat1
     a = np.sin(dlat / 2) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin(dlon / 2) ** 2
+    # rounding can lead to values slightly above 1 for antipodal points
+    a = np.clip(a, 0, 1)
     c = 2 * np.arctan2(a ** 0.5, (1 - a) ** 0.5)
     km = 6367 * c
     return km
-- 
2.43.0


From f0c7dd16146f88f0dfb7dc62f9aabdc1ab4979a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:53 +0000
Subject: [PATCH 10/30] fix: find_lowest_std_dev_period failed and was off by
 one

mlab.find does not exist anymore. The start index was -1 if the first window
has the lowest standard deviation.
---
 pycomlink/processing/wet_dry/stft.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index b2e0fbb..1000ac3 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -15,7 +15,6 @@ from __future__ import division
 
 from builtins import range
 import numpy as np
-from matplotlib import mlab
 from matplotlib.mlab import specgram as specg
 import pandas as pd
 
@@ -216,9 +215,9 @@ def find_lowest_std_dev_period(rsl, window_length=600):
 
     """
 
-    roll_std_dev = pd.DataFrame(rsl).rolling(window_length).std()
-    dry_stop = mlab.find(roll_std_dev == np.nanmin(roll_std_dev))
-    dry_stop = dry_stop[0]
+    roll_std_dev = pd.Series(np.asarray(rsl)).rolling(window_length).std()
+    # the rolling window includes the value at the index it is assigned to
+    dry_stop = int(np.nanargmin(roll_std_dev.values)) + 1
     dry_start = dry_stop - window_length
     return dry_start, dry_stop
 
-- 
2.43.0


From 5ef9adec2f103b7a766e61cf9e7ab3454f1630fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:01 +0000
Subject: [PATCH 11/30] fix: stft_classification failed with mirror=True

---
 pycomlink/processing/wet_dry/stft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index 1000ac3..d144418 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -104,7 +104,7 @@ def stft_classification(
             NFFT = window_length
 
         if window is None:
-            window = np.hamming(window_length)
+            window = np.hamming(NFFT)
 
         # Calculate spectrogram using STFT
         Pxx, f, t = specg(
@@ -128,15 +128,15 @@ def stft_classification(
     N_missing_start = np.floor(N_diff / 2)
 
     if mirror:
-        for i in range((len(rsl) - 1) - (NFFT / 2 - 1), len(rsl)):
+        for i in range((len(rsl) - 1) - (NFFT // 2 - 1), len(rsl)):
             rsl_mirr = np.concatenate(
-                (rsl[i - (NFFT / 2 - 1) : i], rsl[i - (NFFT / 2 - 1) : i][::-1])
+                (rsl[i - (NFFT // 2 - 1) : i], rsl[i - (NFFT // 2 - 1) : i][::-1])
             )
             Pxx_mirr, f, t = specg(
                 rsl_mirr, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
             )
 
-            if i == (len(rsl) - 1) - (NFFT / 2 - 1):
+            if i == (len(rsl) - 1) - (NFFT // 2 - 1):
                 Pxx_end = Pxx_mirr
             else:
                 Pxx_end = np.append(Pxx_end, Pxx_mirr, 1)
-- 
2.43.0


From 7a96cd337a76885e0a1d882f610a46885db00780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:23 +0000
Subject: [PATCH 12/30] fix: nearby_wetdry added a variable to the data set of
 the caller

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index bb26fa5..89ba5be 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -155,7 +155,7 @@ def nearby_wetdry(
     deltaPL = deltaP / pmin.length
 
     # get number of CMLs within radius for each CML
-    ds_dist["within_r"] = (
+    within_r = (
         (ds_dist.a_to_all_a < radius)
         & (ds_dist.a_to_all_b < radius)
         & (ds_dist.b_to_all_a < radius)
@@ -174,10 +174,10 @@ def nearby_wetdry(
 
     for cmlid in tqdm(ds_cml.cml_id):
         # only make wet dry detection if min_links is reached within radius
-        if sum(ds_dist.within_r.sel(cml_id1=cmlid).values) > min_links:
+        if sum(within_r.sel(cml_id1=cmlid).values) > min_links:
             # select all CMLs within r
             ds_nearby_cmls = ds_cml.isel(
-                cml_id=ds_dist.within_r.sel(cml_id1=cmlid).values
+                cml_id=within_r.sel(cml_id1=cmlid).values
             )
 
             # calculate median delta P and delta PL for each timestep
-- 
2.43.0


From 494fef91abddac4943827995662e6a98a18f8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:30 +0000
Subject: [PATCH 13/30] fix: nearby_wetdry summed F over a wrong period for
 interval != 15

The number of time steps in timeperiod was hard coded for 15 min data.
---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index 89ba5be..a8b20cb 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -206,7 +206,7 @@ def nearby_wetdry(
 
             # calculate the F values which can be used as outlier filter
             F_val = ds_nearby_cmls.deltaPL.sel(cml_id=cmlid) - medianPL
-            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=timeperiod * 4).sum(
+            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=period).sum(
                 skipna=True
             ) * (interval / 60)
 
-- 
2.43.0


From 64412019cf18954ab1f02a54f3122e77cfe857d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 14/30] fix: N_all_pairs of 2D arrays was the number of rows

---
 pycomlink/validation/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/validation/stats.py b/pycomlink/validation/stats.py
index 01db22a..7d03d7f 100644
--- a/pycomlink/validation/stats.py
+++ b/pycomlink/validation/stats.py
@@ -158,7 +158,7 @@ def calc_wet_dry_performance_metrics(reference, predicted):
     # Remove values pairs if either one or both are NaN and calculate nan metrics
     nan_index = np.isnan(reference) | np.isnan(predicted)
     N_nan_pairs = nan_index.sum()
-    N_all_pairs = len(reference)
+    N_all_pairs = reference.size
     N_nan_reference_only = np.isnan(reference).sum()
     N_nan_predicted_only = np.isnan(predicted).sum()
 
@@ -268,7 +268,7 @@ def calc_rain_error_performance_metrics(reference, predicted, rainfall_threshold
     # Remove values pairs if one or both are NaN and calculate nan metrics
     nan_index = np.isnan(reference) | np.isnan(predicted)
     N_nan_pairs = nan_index.sum()
-    N_all_pairs = len(reference)
+    N_all_pairs = reference.size
     N_nan_reference_only = np.isnan(reference).sum()
     N_nan_predicted_only = np.isnan(predicted).sum()
 
-- 
2.43.0


From f1c1d9e4eb47607aeb6ff62dc6c30d651b33bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 15/30] fix: PyTorch predictions with shape (N, 1) were dropped

Assigning an array of size one to an element raised ValueError, which was
interpreted as time or cml_id not found, and all predictions were NaN.
---
 pycomlink/processing/pytorch_utils/run_inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/run_inference.py b/pycomlink/processing/pytorch_utils/run_inference.py
index 062c2c9..7eec2d2 100644
--- a/pycomlink/processing/pytorch_utils/run_inference.py
+++ b/pycomlink/processing/pytorch_utils/run_inference.py
@@ -151,7 +151,8 @@ def redistribute_results(results, data):
     Returns:
         xarray.Dataset: Dataset with predictions added as a new variable
     """
-    predictions = results["predictions"]  # Remove any extra dimensions
+    # Remove any extra dimensions, e.g. for model output with shape (N, 1)
+    predictions = np.reshape(results["predictions"], len(results["cml_ids"]))
     cml_ids = results["cml_ids"]  # Already numpy array
     times = results["times"]  # Already numpy array
 
-- 
2.43.0


From 363a391741a5e2ba3d9051875f4ea3e952553594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:40 +0000
Subject: [PATCH 16/30] fix: list_cached_models never found a model

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index d71fac1..e1b2361 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -102,7 +102,7 @@ def list_cached_models(cache_dir="~/.cml_wd_pytorch/models", suffix=".pt"):
     """
     cache_dir = Path(cache_dir).expanduser()
     if cache_dir.exists():
-        return list(cache_dir.glob(suffix))
+        return list(cache_dir.glob(f"*{suffix}"))
     return []
 
 
-- 
2.43.0


From 9021729a740bba32ed960cf563cde65a6c02060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:09 +0000
Subject: [PATCH 17/30] fix: nearby_wetdry used wrong CMLs if ds_dist had
 another order than pmin

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index a8b20cb..d3840d5 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -161,6 +161,9 @@ def nearby_wetdry(
         & (ds_dist.b_to_all_a < radius)
         & (ds_dist.b_to_all_b < radius)
     )
+    # same CMLs in the same order as in `pmin`, because the boolean values
+    # are used as positional index below
+    within_r = within_r.sel(cml_id2=pmin.cml_id.values)
 
     ds_cml = pmin.to_dataset(name="pmin")
     ds_cml["max_pmin"] = max_pmin
-- 
2.43.0


From 6d86b79af2c061dfbd395faad44cac4ba8f3463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:39 +0000
Subject: [PATCH 18/30] fix: interrupted model downloads left incomplete files
 in the cache

The partial file was then used as if it was a complete cached model.
---
 pycomlink/processing/pytorch_utils/inference_utils.py | 11 ++++++++++-
 .../processing/tensorflow_utils/inference_utils.py    | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index e1b2361..972fc7b 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -33,7 +33,9 @@ Example Usage:
 """
 
 import hashlib
+import os
 import urllib.request
+import uuid
 from pathlib import Path
 
 from pycomlink.processing.pytorch_utils.pytorch_utils import (
@@ -66,7 +68,14 @@ def download_and_cache_model(
 
     if not cached_path.exists() or force_download:
         print(f"Downloading model from {model_url}...")
-        urllib.request.urlretrieve(model_url, cached_path)
+        # Download to a temporary file so that an interrupted download never
+        # leaves an incomplete model file in the cache
+        temp_path = cache_dir / f"{model_filename}.{uuid.uuid4().hex}.part"
+        try:
+            urllib.request.urlretrieve(model_url, temp_path)
+            os.replace(temp_path, cached_path)
+        finally:
+            temp_path.unlink(missing_ok=True)
         print(f"Model cached at {cached_path}")
     else:
         print(f"Using cached model at {cached_path}")
diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index c58418c..49dd162 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,7 +1,9 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import os
 import urllib.request
+import uuid
 from pathlib import Path
 
 # Third-party imports
@@ -123,7 +125,14 @@ def download_and_cache(url, cache_dir, force_download=False):
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-        urllib.request.urlretrieve(url, cached_path)
+        # Download to a temporary file so that an interrupted download never
+        # leaves an incomplete file in the cache
+        temp_path = cache_dir / f"{filename}.{uuid.uuid4().hex}.part"
+        try:
+            urllib.request.urlretrieve(url, temp_path)
+            os.replace(temp_path, cached_path)
+        finally:
+            temp_path.unlink(missing_ok=True)
     else:
         print(f"[→] Using cached file: {cached_path}")
 
-- 
2.43.0


From b6173376d6331f2f9db4554b99ba89276a5e31db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:43 +0000
Subject: [PATCH 19/30] fix: equally named model files of different URLs shared
 one cached file

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 49dd162..45ce42e 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,6 +1,7 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import hashlib
 import os
 import urllib.request
 import uuid
@@ -120,7 +121,9 @@ def download_and_cache(url, cache_dir, force_download=False):
     """
     cache_dir = Path(cache_dir)
     cache_dir.mkdir(parents=True, exist_ok=True)
-    filename = url.split("/")[-1]
+    # Add URL hash to avoid conflicts between equally named files
+    url_hash = hashlib.md5(url.encode()).hexdigest()
+    filename = f"{url_hash}_{url.split('/')[-1]}"
     cached_path = cache_dir / filename
 
     if not cached_path.exists() or force_download:
-- 
2.43.0


From e0229a2cb572c7ebede02ca585d312f1d34283dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:38 +0000
Subject: [PATCH 20/30] fix: wrong time zone handling in
 aggregate_df_onto_DatetimeIndex

A new_index without time zone was read in new_index_tz for the selection of
the data but labelled as UTC in the result. If the common period was bounded
by time stamps from both indices in different time zones, slicing failed.
---
 pycomlink/util/temporal.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 6f2f319..b72e81f 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -47,6 +47,9 @@ def aggregate_df_onto_DatetimeIndex(
     # Update time zone info if there is none
     if not df_new_t.index.tzinfo:
         df_new_t.index = df_new_t.index.tz_localize(new_index_tz)
+        df_new_t["time"] = df_new_t.index.tz_convert(df_temp.index.tz)
+    # Use the same time zone for both, which is required for slicing below
+    df_new_t.index = df_new_t.index.tz_convert(df_temp.index.tz)
 
     # Crop both time series to make them cover the same period.
     # This is to avoid the ffill or bfill to run outside of the
@@ -64,11 +67,7 @@ def aggregate_df_onto_DatetimeIndex(
     # Aggregate data onto new DatetimeIndex
     df_temp["new_time_ix"] = df_new_t.time
     df_reindexed = df_temp.groupby("new_time_ix").agg(method)
-    # Update name and timezone of new index
+    # Update name of new index
     df_reindexed.index.name = df_temp.index.name
-    if not df_reindexed.index.tzinfo:
-        df_reindexed.index = df_reindexed.index.tz_localize("UTC").tz_convert(
-            df_temp.index.tzinfo
-        )
 
     return df_reindexed
-- 
2.43.0


From 209e6ed111513f009feeebc0bc04829be4d6e396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:11 +0000
Subject: [PATCH 21/30] fix: reading cmlh5 files with min-max data failed

This includes the bundled example data of get_75_cmls_min_max().
---
 pycomlink/io/cmlh5_to_xarray.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycomlink/io/cmlh5_to_xarray.py b/pycomlink/io/cmlh5_to_xarray.py
index b2dfa31..d257f3b 100644
--- a/pycomlink/io/cmlh5_to_xarray.py
+++ b/pycomlink/io/cmlh5_to_xarray.py
@@ -33,11 +33,14 @@ def read_cmlh5_file_to_xarray(filename):
         ds_channel_list = []
         for channel_name, channel_g in cml_g.items():
             cml_ch_g = cml_g[channel_name]
+            # min-max data has different variables than instantaneous data
+            suffixes = ["_min", "_max"] if "tx_min" in cml_ch_g else [""]
+            data_vars = {}
+            for suffix in suffixes:
+                data_vars["tsl" + suffix] = ("time", cml_ch_g["tx" + suffix][:])
+                data_vars["rsl" + suffix] = ("time", cml_ch_g["rx" + suffix][:])
             ds_temp = xr.Dataset(
-                data_vars={
-                    "tsl": ("time", cml_ch_g["tx"][:]),
-                    "rsl": ("time", cml_ch_g["rx"][:]),
-                },
+                data_vars=data_vars,
                 coords={
                     "time": (cml_ch_g["time"][:] * 1e9).astype("datetime64[ns]"),
                     "channel_id": channel_name,
-- 
2.43.0


From 1ba06f32a75400bd2337f43043101ba18f80d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:38 +0000
Subject: [PATCH 22/30] fix: a_b lost dimension names and failed for 0D
 DataArrays

---
 pycomlink/processing/k_R_relation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index 60c8c9a..9976981 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -203,6 +203,8 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     if isinstance(f_GHz, xr.DataArray):
         return_xarray = True
         f_GHz_coords = f_GHz.coords
+        f_GHz_dims = f_GHz.dims
+        f_GHz_shape = f_GHz.shape
     else:
         return_xarray = False
 
@@ -258,8 +260,8 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     # If f_GHz is a xr.DataArray a and b should be also returned as xr.DataArray
     # with identical coordinates
     if return_xarray:
-        a = xr.DataArray(a, coords=f_GHz_coords)
-        b = xr.DataArray(b, coords=f_GHz_coords)
+        a = xr.DataArray(a.reshape(f_GHz_shape), f_GHz_coords, f_GHz_dims)
+        b = xr.DataArray(b.reshape(f_GHz_shape), f_GHz_coords, f_GHz_dims)
 
     return a, b
 
-- 
2.43.0


From 37f9f125d25892f7e425d43f6c130a928f310da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:45 +0000
Subject: [PATCH 23/30] fix: calc_R_from_A_min_max failed for scalars and lists

---
 pycomlink/processing/k_R_relation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index 9976981..2f8b8e5 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -147,7 +147,8 @@ def calc_R_from_A_min_max(
     a_max = a * (np.log(k) + euler_gamma) ** b
 
     # calculate rainfall
-    R = np.zeros_like(Ar_max, dtype="float")
+    Ar_max = np.atleast_1d(Ar_max).astype(float)
+    R = np.zeros_like(Ar_max)
 
     nan_index = np.isnan(Ar_max)
     R[nan_index] = np.nan
-- 
2.43.0


From 54b5da3b9e066211f68bed4c59fe740424d36d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:23 +0000
Subject: [PATCH 24/30] fix: id_coord of wet_dry_1d_cnn was not used

Any name other than cml_id led to no samples or an error.
---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 7 +++++--
 pycomlink/processing/tensorflow_utils/run_inference.py   | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 45ce42e..d59c42e 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -32,7 +32,9 @@ def get_optimizer_class():
 # -----------------------
 # Core Functions
 # -----------------------
-def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
+def create_samples(
+    ds, cml_ids, input_vars, seq_len=180, time_dim="time", cml_dim="cml_id"
+):
     """
     Create time series samples from CML dataset for model inference.
 
@@ -42,6 +44,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
         input_vars: List of variable names to use as features
         seq_len: Length of time sequences (default: 180)
         time_dim: Name of the time dimension (default: "time")
+        cml_dim: Name of the CML dimension (default: "cml_id")
 
     Returns:
         tuple: (X, ids, time_idx) where X is the feature array,
@@ -51,7 +54,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
 
     for cml in cml_ids:
         try:
-            ds_cml = ds.sel(cml_id=cml)
+            ds_cml = ds.sel({cml_dim: cml})
             inputs = np.stack(
                 [ds_cml[var].values.astype(np.float32) for var in input_vars], axis=-1
             )
diff --git a/pycomlink/processing/tensorflow_utils/run_inference.py b/pycomlink/processing/tensorflow_utils/run_inference.py
index 8960863..b1f7db9 100644
--- a/pycomlink/processing/tensorflow_utils/run_inference.py
+++ b/pycomlink/processing/tensorflow_utils/run_inference.py
@@ -81,7 +81,7 @@ def wet_dry_1d_cnn(
     model = inference_utils.load_model_from_local(json_path, weights_path, lr=lr)
 
     # Prepare samples and scale
-    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len)
+    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len, cml_dim=id_coord)
     X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
 
     # Predict
@@ -98,6 +98,7 @@ def wet_dry_1d_cnn(
         model_prob=y_prob,
         time_indices = t_idx,
         cml_ids=ids,
+        cml_dim=id_coord,
         var_name=prob_name)    
 
     if return_ds:
-- 
2.43.0


From a92f1477be7537a220e5ca822cffc33e044c24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:30 +0000
Subject: [PATCH 25/30] fix: wet_dry_1d_cnn failed if there is no complete
 sample

---
 .../tensorflow_utils/run_inference.py         | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/run_inference.py b/pycomlink/processing/tensorflow_utils/run_inference.py
index b1f7db9..92a8766 100644
--- a/pycomlink/processing/tensorflow_utils/run_inference.py
+++ b/pycomlink/processing/tensorflow_utils/run_inference.py
@@ -82,16 +82,20 @@ def wet_dry_1d_cnn(
 
     # Prepare samples and scale
     X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len, cml_dim=id_coord)
-    X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
+    if len(X) > 0:
+        X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
+
+        # Predict
+        y_prob = inference_utils.run_inference(
+            model=model,
+            model_input=X_scaled,
+            batch_size=batch_size
+        )
+        del X_scaled
+    else:
+        # no complete sample, all predictions stay NaN
+        y_prob = []
 
-    # Predict
-    y_prob = inference_utils.run_inference(
-        model=model,
-        model_input=X_scaled,
-        batch_size=batch_size
-    )
-    del X_scaled
-    
     # Store predictions as DataArray
     pred_array = inference_utils.store_predictions(
         ds = ds,
-- 
2.43.0


From 05325249810ac1d0b160692c8b0a3d466b526724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:23 +0000
Subject: [PATCH 26/30] fix: baseline_linear overwrote the dry value before a
 wet period

If the signal is NaN at the first dry sample after a wet period, the
interpolation also set the baseline at the last dry sample before to NaN,
although the signal is known there.
---
 pycomlink/processing/baseline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index 501dea1..2a55972 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -140,9 +140,9 @@ def _numba_baseline_linear(rsl, wet, ignore_nan=False):
             else:
                 # !! Only works correctly with 'i+1'. With 'i' the first dry
                 # !! baseline value is kept at 0. No clue why we need the '+1'
-                baseline[last_dry_i : i + 1] = np.linspace(
+                baseline[last_dry_i + 1 : i + 1] = np.linspace(
                     last_dry_rsl, rsl_i, i - last_dry_i + 1
-                )
+                )[1:]
             found_nan = False
             last_i_is_wet = False
             last_dry_i = i
-- 
2.43.0


From 6dd4736a62d02b3dda57518f939e1fd3e64cdfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:54 +0000
Subject: [PATCH 27/30] fix: kriging failed for grids with integer coordinates

pykrige modifies a copy of the grid coordinates in place, which is not
possible with an integer type.
---
 pycomlink/spatial/interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 89c3706..c3039fd 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -163,8 +163,8 @@ class OrdinaryKrigingInterpolator(PointsToGridInterpolator):
 
         zi, sigma = ok.execute(
             style="points",
-            xpoints=xi,
-            ypoints=yi,
+            xpoints=xi.astype(float),
+            ypoints=yi.astype(float),
             n_closest_points=self.n_closest_points,
             backend=self.backend,
         )
-- 
2.43.0


From d57c803e604be2e1b11c617ac00708acc9394980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:49 +0000
Subject: [PATCH 28/30] fix: out of bounds access in compiled loops for series
 of different or zero length

---
 pycomlink/processing/baseline.py               | 8 ++++++++
 pycomlink/processing/blackout_gap_detection.py | 3 +++
 pycomlink/processing/wet_antenna.py            | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index 2a55972..193cb9e 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -41,6 +41,9 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 
     """
 
+    if len(trsl) != len(wet):
+        raise ValueError("`trsl` and `wet` must have the same length")
+
     return _numba_baseline_constant(
         trsl=np.asarray(trsl, dtype=np.float64),
         wet=np.asarray(wet, dtype=np.float64),
@@ -100,6 +103,11 @@ def baseline_linear(rsl, wet, ignore_nan=False):
     rsl = rsl.astype(np.float64)
     wet = wet.astype(np.float64)
 
+    if len(rsl) != len(wet):
+        raise ValueError("`rsl` and `wet` must have the same length")
+    if len(rsl) == 0:
+        return rsl
+
     return _numba_baseline_linear(rsl, wet, ignore_nan)
 
 
diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index 2e430f9..799bd56 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -53,6 +53,9 @@ def created_blackout_gap_mask_from_start_end_markers(rsl, gap_start, gap_end):
 
     """
 
+    if len(gap_start) != len(rsl) or len(gap_end) != len(rsl):
+        raise ValueError("`rsl`, `gap_start` and `gap_end` must have the same length")
+
     mask = np.zeros(rsl.shape, dtype=np.bool_)
     in_blackout_gap = False
     for i in range(len(rsl)):
diff --git a/pycomlink/processing/wet_antenna.py b/pycomlink/processing/wet_antenna.py
index a4106f2..6836017 100644
--- a/pycomlink/processing/wet_antenna.py
+++ b/pycomlink/processing/wet_antenna.py
@@ -98,6 +98,9 @@ def waa_schleiss_2013(rsl, baseline, wet, waa_max, delta_t, tau):
                 links", IEEE Geoscience and Remote Sensing Letters, 10, 2013
     """
 
+    if len(rsl) != len(wet):
+        raise ValueError("`rsl` and `wet` must have the same length")
+
     waa = _numba_waa_schleiss_2013(
         rsl=np.asarray(rsl, dtype=np.float64),
         baseline=np.asarray(baseline, dtype=np.float64),
-- 
2.43.0


From b0f68d3b32c24814fe8fb6580f62a3256199f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:26 +0000
Subject: [PATCH 29/30] fix: waa_schleiss_2013 accepted a baseline series of
 length 1 for a longer rsl series

The single value was broadcast silently, all other differing lengths raise.
---
 pycomlink/processing/wet_antenna.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomlink/processing/wet_antenna.py b/pycomlink/processing/wet_antenna.py
index 6836017..c4f3beb 100644
--- a/pycomlink/processing/wet_antenna.py
+++ b/pycomlink/processing/wet_antenna.py
@@ -100,6 +100,8 @@ def waa_schleiss_2013(rsl, baseline, wet, waa_max, delta_t, tau):
 
     if len(rsl) != len(wet):
         raise ValueError("`rsl` and `wet` must have the same length")
+    if np.ndim(baseline) > 0 and len(baseline) != len(rsl):
+        raise ValueError("`rsl` and `baseline` must have the same length")
 
     waa = _numba_waa_schleiss_2013(
         rsl=np.asarray(rsl, dtype=np.float64),
-- 
2.43.0


From 58264c116042cb590e5b189f777c4dad6b7bc5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:16 +0000
Subject: [PATCH 30/30] fix: stft mirroring left out the sample itself and
 padded the window with zeros

---
 pycomlink/processing/wet_dry/stft.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index d144418..290e37c 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -129,9 +129,8 @@ def stft_classification(
 
     if mirror:
         for i in range((len(rsl) - 1) - (NFFT // 2 - 1), len(rsl)):
-            rsl_mirr = np.concatenate(
-                (rsl[i - (NFFT // 2 - 1) : i], rsl[i - (NFFT // 2 - 1) : i][::-1])
-            )
+            rsl_half = rsl[i - (NFFT // 2 - 1) : i + 1]
+            rsl_mirr = np.concatenate((rsl_half, rsl_half[::-1]))
             Pxx_mirr, f, t = specg(
                 rsl_mirr, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
             )
-- 
2.43.0

