From 7fe501121539c96144192426bbaa7fcc11c7e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 01/85] fix: apply thresholds and vicinity radii in the order
 of the merged coordinate

---
 improver/threshold.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/improver/threshold.py b/improver/threshold.py
index 5aba3af..e7ca655 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -191,6 +191,12 @@ class Threshold(PostProcessingPlugin):
             )
             self._check_fuzzy_bounds()
 
+        # The threshold cube is created by merging, which sorts the threshold
+        # coordinate; the thresholds must be applied in the same order.
+        order = np.argsort(self.thresholds, kind="stable")
+        self.thresholds = [self.thresholds[i] for i in order]
+        self.fuzzy_bounds = [self.fuzzy_bounds[i] for i in order]
+
         self.original_units = None
         self.comparison_operator_dict = comparison_operator_dict()
         self.comparison_operator_string = comparison_operator
@@ -206,7 +212,8 @@ class Threshold(PostProcessingPlugin):
         self.vicinity = None
         if vicinity:
             if isinstance(vicinity, Iterable):
-                self.vicinity = [float(x) for x in vicinity]
+                # Sorted to match the order of the merged vicinity coordinate.
+                self.vicinity = sorted(float(x) for x in vicinity)
             else:
                 self.vicinity = [float(vicinity)]
 
-- 
2.43.0


From 3a0da80814eb1ae47824cea0bb1b282499ae061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 02/85] fix: keep masked points out of fuzzy thresholded
 vicinity maxima

---
 improver/threshold.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/improver/threshold.py b/improver/threshold.py
index e7ca655..bf43302 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -420,6 +420,11 @@ class Threshold(PostProcessingPlugin):
             if "less_than" in self.comparison_operator.spp_string:
                 truth_value = 1.0 - truth_value
 
+            # np.where returns an unmasked array; restore the mask to ensure that
+            # masked points do not contribute to any vicinity processing.
+            if np.ma.is_masked(cube.data):
+                truth_value = np.ma.masked_array(truth_value, mask=cube.data.mask)
+
         return truth_value.astype(FLOAT_DTYPE)
 
     def _vicinity_processing(
-- 
2.43.0


From e46fe56fc6bc6051c424f9aea5bb64eecb9bb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 03/85] fix: square neighbourhoods of trimmed data treat points
 beyond the domain as zero

---
 improver/nbhood/nbhood.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/improver/nbhood/nbhood.py b/improver/nbhood/nbhood.py
index d69a799..872e66a 100644
--- a/improver/nbhood/nbhood.py
+++ b/improver/nbhood/nbhood.py
@@ -22,7 +22,7 @@ from improver.utilities.cube_checker import (
     check_cube_coordinates,
     find_dimension_coordinate_mismatch,
 )
-from improver.utilities.neighbourhood_tools import boxsum, pad_and_roll
+from improver.utilities.neighbourhood_tools import boxsum, pad_and_roll, pad_boxsum
 from improver.utilities.spatial import (
     check_if_grid_is_equal_area,
     distance_to_number_of_grid_cells,
@@ -344,7 +344,6 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
         ystart = xstart = 0
         ystop, xstop = data.shape
         size = data.size
-        extreme = 0
         fill_value = 0
         half_nb_size = self.nb_size // 2
         # For the two extreme values, 0 and 1, find the size and position of the smallest array
@@ -371,9 +370,8 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
                 _xstop = min(data_shape[1], _xstop + half_nb_size)
             _size = (_ystop - _ystart) * (_xstop - _xstart)
             if _size < size:
-                size, extreme, fill_value, ystart, ystop, xstart, xstop = (
+                size, fill_value, ystart, ystop, xstart, xstop = (
                     _size,
-                    _extreme,
                     _fill_value,
                     _ystart,
                     _ystop,
@@ -390,14 +388,17 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
         if size:
             # The subset of data is non-zero in size, so calculate the neighbourhood sums in the
             # subset.
-            data = data[ystart:ystop, xstart:xstop]
-
             # Calculate neighbourhood totals for input data.
             if self.neighbourhood_method == "square":
-                data = boxsum(
-                    data, self.nb_size, mode="constant", constant_values=extreme
-                )
+                # Pad before trimming, as the points beyond the edge of the domain are zero,
+                # even if the points which have been trimmed are not.
+                data = pad_boxsum(data, self.nb_size, mode="constant")
+                data = data[
+                    ystart : ystop + self.nb_size, xstart : xstop + self.nb_size
+                ]
+                data = boxsum(data, self.nb_size)
             elif self.neighbourhood_method == "circular":
+                data = data[ystart:ystop, xstart:xstop]
                 data = correlate(data, self.kernel, mode="nearest")
         else:
             data = untrimmed
-- 
2.43.0


From 7a8b6a115d531a051d1659f334281f24c7256ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 04/85] fix: complex_to_deg returns angles below 360 degrees

---
 improver/utilities/complex_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/utilities/complex_conversion.py b/improver/utilities/complex_conversion.py
index b44ee60..668de0a 100644
--- a/improver/utilities/complex_conversion.py
+++ b/improver/utilities/complex_conversion.py
@@ -65,4 +65,7 @@ def complex_to_deg(complex_in: ndarray) -> ndarray:
     # We don't need 64 bit precision.
     angle = angle.astype(np.float32)
 
+    # Tiny negative angles are rounded to 360 by the first modulo operation.
+    angle = np.mod(angle, np.float32(360))
+
     return angle
-- 
2.43.0


From 92414a805c32061d112f47ab1efc60b152df68a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 05/85] fix: neighbourhood percentiles follow the order of the
 merged percentile coordinate

---
 improver/nbhood/nbhood.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/nbhood/nbhood.py b/improver/nbhood/nbhood.py
index 872e66a..c02efaf 100644
--- a/improver/nbhood/nbhood.py
+++ b/improver/nbhood/nbhood.py
@@ -497,7 +497,8 @@ class GeneratePercentilesFromANeighbourhood(BaseNeighbourhoodProcessing):
                 DEFAULT_PERCENTILES.
         """
         super().__init__(radii, lead_times=lead_times)
-        self.percentiles = tuple(percentiles)
+        # Sorted to match the order of the merged percentile coordinate.
+        self.percentiles = tuple(sorted(percentiles))
 
     def pad_and_unpad_cube(self, slice_2d: Cube, kernel: ndarray) -> Cube:
         """
-- 
2.43.0


From cdb5ed9a234c05e8b0bef433cb0758771d78fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 06/85] fix: distances between grid squares leave the input
 coordinates' units alone

---
 improver/utilities/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 5655e8e..93fea4e 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -458,8 +458,8 @@ class DistanceBetweenGridSquares(BasePlugin):
             Boolean representing whether the cube has x and y axes defined in a distance unit.
         """
         try:
-            cube.coord(axis="x").convert_units("m")
-            cube.coord(axis="y").convert_units("m")
+            cube.coord(axis="x").copy().convert_units("m")
+            cube.coord(axis="y").copy().convert_units("m")
             return True
         except (
             TypeError,
-- 
2.43.0


From 5a88cef9024196289f32233baabe2f75fc410a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 07/85] fix: an integration start or end point of zero is
 respected

---
 improver/utilities/mathematical_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/mathematical_operations.py b/improver/utilities/mathematical_operations.py
index df6e16f..c1b6b63 100644
--- a/improver/utilities/mathematical_operations.py
+++ b/improver/utilities/mathematical_operations.py
@@ -242,12 +242,12 @@ class Integration(BasePlugin):
             """Conditions under which a slice should not be included in
             the integrated total.  All inputs (except the string "direction")
             are floats."""
-            if start_point:
+            if start_point is not None:
                 if direction and lower_bound < start_point:
                     return True
                 if not direction and upper_bound > start_point:
                     return True
-            if end_point:
+            if end_point is not None:
                 if direction and upper_bound > end_point:
                     return True
                 if not direction and lower_bound < end_point:
-- 
2.43.0


From a49ad4c9dc45e4b28fde91c2fbc21760486f0495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 08/85] fix: netCDF comparison treats NaN attributes as equal
 and reports shape differences

---
 improver/utilities/compare.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index 91a2368..c0414d7 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -314,14 +314,13 @@ def compare_attributes(
                 f"{type(actual_attr)} {type(desired_attr)}"
             )
             reporter(msg)
-        if isinstance(desired_attr, np.ndarray):
-            if not np.array_equal(actual_attr, desired_attr):
-                msg = (
-                    f"different attribute value {name}/{key} - "
-                    f"{actual_attr} {desired_attr}"
-                )
-                reporter(msg)
-        elif actual_attr != desired_attr:
+        try:
+            # handles arrays and lists, and treats NaNs as equal
+            np.testing.assert_equal(actual_attr, desired_attr)
+            difference_found = False
+        except AssertionError:
+            difference_found = True
+        if difference_found:
             msg = (
                 f"different attribute value {name}/{key} - "
                 f"{actual_attr} {desired_attr}"
@@ -357,12 +356,17 @@ def compare_data(
     if actual_var.dtype != desired_var.dtype:
         msg = f"different type {name} - {actual_var.dtype} {desired_var.dtype}"
         reporter(msg)
-    actual_data = actual_var[:]
-    desired_data = desired_var[:]
+    # scalar string variables are read as str
+    actual_data = np.asarray(actual_var[:])
+    desired_data = np.asarray(desired_var[:])
     difference_found = False
     numpy_err_message = ""
     try:
-        if actual_data.dtype.kind in ["b", "O", "S", "U", "V"]:
+        # numpy.testing would broadcast a scalar against an array
+        assert actual_data.shape == desired_data.shape, (
+            f"shape mismatch: {actual_data.shape} {desired_data.shape}"
+        )
+        if {actual_data.dtype.kind, desired_data.dtype.kind} & set("bOSUV"):
             # numpy boolean, object, bytestring, unicode and void types don't
             # have numerical "closeness" so use exact equality for these
             np.testing.assert_equal(actual_data, desired_data, verbose=True)
-- 
2.43.0


From a6501b27880c3a4060f64e0698c3d2c2582354b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 09/85] fix: redirect_stdout restores standard output after an
 exception

---
 improver/utilities/redirect_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/redirect_stdout.py b/improver/utilities/redirect_stdout.py
index 32ef1f8..c2170c3 100644
--- a/improver/utilities/redirect_stdout.py
+++ b/improver/utilities/redirect_stdout.py
@@ -19,5 +19,7 @@ def redirect_stdout(target=None):
     """
     original = sys.stdout
     sys.stdout = target
-    yield
-    sys.stdout = original
+    try:
+        yield
+    finally:
+        sys.stdout = original
-- 
2.43.0


From 4edea3cabca3f94802e582b619feb9b677c7f803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 10/85] fix: percentile masks are taken from a percentile or
 threshold slice in any dimension order

---
 .../ensemble_copula_coupling.py               | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index f49fd47..3d0a9fd 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -336,13 +336,16 @@ class ResamplePercentiles(BasePlugin):
             percentile_coord_name
         ).points
 
-        original_mask = None
-        if np.ma.is_masked(forecast_at_percentiles.data):
-            original_mask = forecast_at_percentiles.data.mask[0]
-
         # Ensure that the percentile dimension is first, so that the
         # conversion to a 2d array produces data in the desired order.
         enforce_coordinate_ordering(forecast_at_percentiles, percentile_coord_name)
+
+        original_mask = None
+        if np.ma.is_masked(forecast_at_percentiles.data):
+            original_mask = np.ma.getmaskarray(
+                next(forecast_at_percentiles.slices_over(percentile_coord_name)).data
+            )
+
         forecast_at_reshaped_percentiles = convert_cube_data_to_2d(
             forecast_at_percentiles, coord=percentile_coord_name
         )
@@ -618,13 +621,16 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
         threshold_points = threshold_coord.points
         threshold_name = threshold_coord.name()
 
-        original_mask = None
-        if np.ma.is_masked(forecast_probabilities.data):
-            original_mask = forecast_probabilities.data.mask[0]
-
         # Ensure that the percentile dimension is first, so that the
         # conversion to a 2d array produces data in the desired order.
         enforce_coordinate_ordering(forecast_probabilities, threshold_name)
+
+        original_mask = None
+        if np.ma.is_masked(forecast_probabilities.data):
+            original_mask = np.ma.getmaskarray(
+                next(forecast_probabilities.slices_over(threshold_name)).data
+            )
+
         prob_slices = convert_cube_data_to_2d(
             forecast_probabilities, coord=threshold_name
         )
-- 
2.43.0


From c47932138032ef84fb08fd263f1d4fbb78630c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 11/85] fix: masking of a single percentile generated from
 probabilities

---
 improver/ensemble_copula_coupling/ensemble_copula_coupling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 3d0a9fd..92f9e79 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -708,6 +708,8 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
                 mask_probability = 1 - mask_probability
 
             for index, perc in enumerate(percentiles_as_fractions):
+                # a single percentile has no percentile dimension
+                index = index if len(percentiles) > 1 else Ellipsis
                 forecast_at_percentiles[index] = np.ma.masked_where(
                     mask_probability <= perc, forecast_at_percentiles[index]
                 )
-- 
2.43.0


From d694cef935f0e6d00ad767eb66612d0b3a661a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 12/85] fix: percentiles requested in any order are next to
 their own values

---
 improver/ensemble_copula_coupling/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/ensemble_copula_coupling/utilities.py b/improver/ensemble_copula_coupling/utilities.py
index fbf2287..495e5f2 100644
--- a/improver/ensemble_copula_coupling/utilities.py
+++ b/improver/ensemble_copula_coupling/utilities.py
@@ -153,8 +153,10 @@ def create_cube_with_percentiles(
         cubes.append(cube)
     result = cubes.merge_cube()
 
-    # replace data and units
+    # replace data and units, in the (ascending) order of the merged coordinate
     result.data = cube_data
+    if len(percentiles) > 1:
+        result.data = cube_data[np.argsort(percentiles, kind="stable")]
     if cube_unit is not None:
         result.units = cube_unit
 
-- 
2.43.0


From b8eb4c8b08ec7e6db3a92c63a960fbdb2cdecd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 13/85] fix: ensemble reordering of several times with random
 numbers

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 92f9e79..d24f60d 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1408,14 +1408,14 @@ class EnsembleReordering(BasePlugin):
             the ranking from the raw ensemble.
         """
         results = iris.cube.CubeList([])
+        if random_seed is not None:
+            random_seed = int(random_seed)
+        random_state = np.random.RandomState(random_seed)
         for rawfc, calfc in zip(
             raw_forecast_realizations.slices_over("time"),
             post_processed_forecast_percentiles.slices_over("time"),
         ):
-            if random_seed is not None:
-                random_seed = int(random_seed)
-            random_seed = np.random.RandomState(random_seed)
-            random_data = random_seed.rand(*rawfc.data.shape)
+            random_data = random_state.rand(*rawfc.data.shape)
             if random_ordering:
                 # Returns the indices that would sort the array.
                 # As these indices are from a random dataset, only an argsort
-- 
2.43.0


From 4c0e6b9206ca17aad063b4e81ce8809f6d30cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 14/85] fix: a location and scale parameter plugin can be used
 more than once

---
 improver/ensemble_copula_coupling/ensemble_copula_coupling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index d24f60d..92b2961 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -881,6 +881,7 @@ calculate_truncated_normal_crps`,
                 )
             shape_parameters = []
         self.shape_parameters = shape_parameters
+        self.unscaled_shape_parameters = shape_parameters
 
     def __repr__(self) -> str:
         """Represent the configured plugin instance as a string."""
@@ -921,7 +922,7 @@ calculate_truncated_normal_crps`,
         """
         if self.distribution.name == "truncnorm":
             rescaled_values = []
-            for value in self.shape_parameters:
+            for value in self.unscaled_shape_parameters:
                 rescaled_values.append((value - location_parameter) / scale_parameter)
             self.shape_parameters = rescaled_values
 
-- 
2.43.0


From 467188210da74895c7b7a0aacd4db0868cf82c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 15/85] fix: percentile bounds are extended to the data when
 some points are masked

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 92b2961..4c270a5 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -291,10 +291,11 @@ class ResamplePercentiles(BasePlugin):
                     "as new bounds."
                 )
                 warnings.warn(warn_msg)
-                if upper_bound < forecast.max():
-                    upper_bound = forecast.max()
-                if lower_bound > forecast.min():
-                    lower_bound = forecast.min()
+                # masked points are NaN
+                if upper_bound < np.nanmax(forecast):
+                    upper_bound = np.nanmax(forecast)
+                if lower_bound > np.nanmin(forecast):
+                    lower_bound = np.nanmin(forecast)
                 forecast = concatenate_2d_array_with_2d_array_endpoints(
                     forecast_at_percentiles, lower_bound, upper_bound
                 )
-- 
2.43.0


From 47f84a5ec4810518b2755e4e1085c4efc56f5d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 16/85] fix: a single percentile can be generated from location
 and scale parameters

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 4c270a5..e59d9e7 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1023,7 +1023,11 @@ class ConvertLocationAndScaleParametersToPercentiles(
 
         # Reshape forecast_at_percentiles, so the percentiles dimension is
         # first, and any other dimension coordinates follow.
-        result = result.reshape((len(percentiles),) + location_parameter.data.shape)
+        # A single percentile is a scalar coordinate.
+        result_shape = location_parameter.data.shape
+        if len(percentiles) > 1:
+            result_shape = (len(percentiles),) + result_shape
+        result = result.reshape(result_shape)
 
         for prob_coord_name in ["realization", "percentile"]:
             if template_cube.coords(prob_coord_name, dim_coords=True):
@@ -1043,7 +1047,7 @@ class ConvertLocationAndScaleParametersToPercentiles(
         )
         # Make the mask defined above fit the data size and then apply to the
         # percentile cube.
-        mask_array = np.stack([mask] * len(percentiles))
+        mask_array = np.broadcast_to(mask, percentile_cube.shape)
         percentile_cube.data = np.ma.masked_where(mask_array, percentile_cube.data)
         # Remove cell methods associated with finding the ensemble mean
         percentile_cube.cell_methods = {}
-- 
2.43.0


From 27977794d0ee91292d7c8571718d98e4008f980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 17/85] fix: percentile blending ignores inputs with no weight
 and masks points without data

---
 improver/blending/weighted_blend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index d3c8c06..2aee3d4 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -302,6 +302,9 @@ class PercentileBlendingAggregator:
             result[:, i] = PercentileBlendingAggregator.blend_percentiles(
                 data[:, :, i], percentiles, arr_weights[:, i]
             )
+        # Points at which none of the inputs are valid remain masked
+        if np.ma.is_masked(data):
+            result = np.ma.masked_where(np.ma.getmaskarray(data).all(axis=0), result)
         # Reshape the data with a leading percentile dimension
         shape = percentiles.shape + grid_shape
         result = result.reshape(shape)
@@ -329,6 +332,11 @@ class PercentileBlendingAggregator:
             Array containing the weighted percentile blend data
             across the chosen coord
         """
+        # Inputs with no weight must not contribute thresholds to the result.
+        if np.any(weights > 0):
+            perc_values = perc_values[weights > 0]
+            weights = weights[weights > 0]
+
         inputs_to_blend = perc_values.shape[0]
         combined_cdf = np.zeros((inputs_to_blend, len(percentiles)), dtype=FLOAT_DTYPE)
 
-- 
2.43.0


From ac113883d9e029964876d196986d89282c548fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 18/85] fix: percentile blending of plateaus stays within the
 inputs

---
 improver/blending/weighted_blend.py | 36 +++++++++++++----------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index 2aee3d4..fb1e529 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -337,28 +337,24 @@ class PercentileBlendingAggregator:
             perc_values = perc_values[weights > 0]
             weights = weights[weights > 0]
 
-        inputs_to_blend = perc_values.shape[0]
-        combined_cdf = np.zeros((inputs_to_blend, len(percentiles)), dtype=FLOAT_DTYPE)
-
-        # Loop over the axis we are blending over finding the values for the
-        # probability at each threshold in the cdf, for each of the other
-        # points in the axis we are blending over.
-        # Then add the probabilities multiplied by the correct weight to the
-        # running total.
-        for i in range(0, inputs_to_blend):
-            interp_values = np.reshape(
-                np.interp(perc_values, perc_values[i], percentiles),
-                (inputs_to_blend, len(percentiles)),
-            )
-            interp_values[i] = percentiles
-            combined_cdf += interp_values * weights[i]
-
-        # Combine and sort the threshold values for all the points
-        # we are blending.
+        # At each threshold in any of the inputs, find the probability below it
+        # (lower) and up to and including it (upper) in each of the inputs. These
+        # differ where several percentiles of an input have the same value. Add the
+        # probabilities multiplied by the correct weight to the running total.
         combined_perc_thres_data = np.sort(perc_values.flatten())
+        lower_cdf = np.zeros(combined_perc_thres_data.shape, dtype=FLOAT_DTYPE)
+        upper_cdf = np.zeros(combined_perc_thres_data.shape, dtype=FLOAT_DTYPE)
+        for values, weight in zip(perc_values, weights):
+            upper_cdf += weight * np.interp(
+                combined_perc_thres_data, values, percentiles
+            )
+            lower_cdf += weight * np.interp(
+                -combined_perc_thres_data, -values[::-1], percentiles[::-1]
+            )
 
-        # Combine and sort blended probability values.
-        combined_perc_values = np.sort(combined_cdf.flatten())
+        # Combine the blended probability values, both of which are in order
+        combined_perc_values = np.sort(np.concatenate([lower_cdf, upper_cdf]))
+        combined_perc_thres_data = np.repeat(combined_perc_thres_data, 2)
 
         # Find the percentile values from this combined data by interpolating
         # back from probability values to the original percentiles.
-- 
2.43.0


From 5a5c978d858cca1c641f30e597061c2c96829a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 19/85] fix: zero-weighted cycles are removed before blending

---
 improver/blending/calculate_weights_and_blend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/blending/calculate_weights_and_blend.py b/improver/blending/calculate_weights_and_blend.py
index 5272323..906f95c 100644
--- a/improver/blending/calculate_weights_and_blend.py
+++ b/improver/blending/calculate_weights_and_blend.py
@@ -192,7 +192,7 @@ class WeightAndBlend(PostProcessingPlugin):
         slice_out_vals = []
         for wslice in weights.slices_over(self.blend_coord):
             if np.sum(wslice.data) == 0:
-                slice_out_vals.append(wslice.coord(self.blend_coord).points[0])
+                slice_out_vals.append(wslice.coord(self.blend_coord).cell(0).point)
 
         if not slice_out_vals:
             return cube, weights
-- 
2.43.0


From f670abd1a772004b31eb13903080542f818f9b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 20/85] fix: unmask reliability table points that have a truth
 at a later time

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 7d291f7..5de8410 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -407,7 +407,7 @@ class ConstructReliabilityCalibrationTables(BasePlugin):
             dimensions of the forecast and truth cubes (which are
             equivalent).
         """
-        if np.ma.is_masked(truth.data):
+        if np.ma.is_masked(truth.data) or np.ma.is_masked(threshold_reliability):
             table = self._populate_masked_reliability_bins(forecast.data, truth.data)
             # Bitwise addition of masks. This ensures that only points that are
             # masked in both the existing and new reliability tables are kept
-- 
2.43.0


From 48863d4d650e7d8a701a913aa55597dce321a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 21/85] fix: do not extend the caller's list of coordinates to
 aggregate over

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 5de8410..f6ff445 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -588,7 +588,7 @@ class AggregateReliabilityCalibrationTables(BasePlugin):
         Returns:
             Aggregated cube
         """
-        coordinates = [] if coordinates is None else coordinates
+        coordinates = [] if coordinates is None else list(coordinates)
 
         try:
             (cube,) = cubes
-- 
2.43.0


From 0d8aff82f31b6466abe42e3c74125c79974c30ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 22/85] fix: allow reliability calibration of a single
 threshold

---
 improver/calibration/reliability_calibration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index f6ff445..4e34a3e 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -1154,7 +1154,6 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
             UserWarning: If the probabilities must be sorted to reinstate
                          expected monotonicity following calibration.
         """
-        (threshold_dim,) = cube.coord_dims(self.threshold_coord)
         thresholding = probability_is_above_or_below(cube)
         if thresholding is None:
             msg = (
@@ -1163,6 +1162,11 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
             )
             raise ValueError(msg)
 
+        if not cube.coord_dims(self.threshold_coord):
+            # A single threshold, so there is nothing to put in order.
+            return
+        (threshold_dim,) = cube.coord_dims(self.threshold_coord)
+
         if (
             thresholding == "above"
             and not (np.diff(cube.data, axis=threshold_dim) <= 0).all()
-- 
2.43.0


From 4f9df5c7fc70a8a6268254ceb932b7a048d50688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 23/85] fix: keep the type when calibrating the reliability of
 single points

---
 improver/calibration/reliability_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 4e34a3e..1050ead 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -1283,12 +1283,12 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
 
         interpolated = np.interp(forecast_probabilities.data, xp, fp)
 
-        interpolated = interpolated.reshape(shape).astype(np.float32)
+        interpolated = np.clip(interpolated.reshape(shape), 0, 1).astype(np.float32)
 
         if mask is not None:
             interpolated = np.ma.masked_array(interpolated, mask=mask)
 
-        return np.clip(interpolated, 0, 1)
+        return interpolated
 
     def _apply_calibration(
         self, forecast: Cube, reliability_table: Union[Cube, CubeList],
-- 
2.43.0


From 0f10f36121cbfab84d1acbfdbe54203179596798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 24/85] fix: keep the land-sea mask of static predictors when
 estimating EMOS coefficients

---
 improver/calibration/utilities.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/utilities.py b/improver/calibration/utilities.py
index 8463c80..5a96670 100644
--- a/improver/calibration/utilities.py
+++ b/improver/calibration/utilities.py
@@ -403,7 +403,14 @@ def broadcast_data_to_time_coord(cubelist: CubeList) -> List[ndarray]:
         data = cube.data
         if not cube.coords("time") and num_times:
             # Broadcast data from cube along a time dimension.
-            data = np.broadcast_to(data, (num_times[0],) + data.shape)
+            shape = (num_times[0],) + data.shape
+            if np.ma.isMaskedArray(data):
+                data = np.ma.masked_array(
+                    np.broadcast_to(data.data, shape),
+                    mask=np.broadcast_to(np.ma.getmaskarray(data), shape),
+                )
+            else:
+                data = np.broadcast_to(data, shape)
 
         broadcasted_data.append(data)
     return broadcasted_data
-- 
2.43.0


From 70deec324821bf6fb0cd4eca507b579904f9d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 25/85] fix: demote single-valued member coordinates when
 calculating a forecast bias

---
 improver/calibration/simple_bias_correction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/calibration/simple_bias_correction.py b/improver/calibration/simple_bias_correction.py
index a350ec3..2243685 100644
--- a/improver/calibration/simple_bias_correction.py
+++ b/improver/calibration/simple_bias_correction.py
@@ -133,7 +133,9 @@ class CalculateForecastBias(BasePlugin):
                     "Multiple realization values detected. Expect historical forecasts"
                     "to be single valued forecasts."
                 )
-        forecasts = iris.util.squeeze(forecasts)
+        for coord_name in ["percentile", "realization"]:
+            if coord_name in forecast_dim_coords:
+                forecasts = next(forecasts.slices_over(coord_name))
         return forecasts
 
     def _define_metadata(self, forecasts: Cube) -> Dict[str, str]:
@@ -228,7 +230,7 @@ class CalculateForecastBias(BasePlugin):
             A cube containing the forecast bias values evaluated over the set of historic
             forecasts and truth values.
         """
-        self._ensure_single_valued_forecast(historic_forecasts)
+        historic_forecasts = self._ensure_single_valued_forecast(historic_forecasts)
 
         # Ensure that valid times match over forecasts/truth
         historic_forecasts, truths = filter_non_matching_cubes(
-- 
2.43.0


From 9effd6ddcc0671eece2c7cc2509d0dbe3d1dbb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 26/85] fix: allow data at sites to be clipped

---
 improver/utilities/cube_manipulation.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 6a94ce1..0c17dc7 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -547,19 +547,7 @@ def clip_cube_data(cube: Cube, minimum_value: float, maximum_value: float) -> Cu
         The processed cube with the data clipped to the limits of the
         original preprocessed cube.
     """
-    original_attributes = cube.attributes
-    original_methods = cube.cell_methods
-
-    result = iris.cube.CubeList()
-    for cube_slice in cube.slices([cube.coord(axis="y"), cube.coord(axis="x")]):
-        cube_slice.data = np.clip(cube_slice.data, minimum_value, maximum_value)
-        result.append(cube_slice)
-
-    result = result.merge_cube()
-    result.cell_methods = original_methods
-    result.attributes = original_attributes
-    result = check_cube_coordinates(cube, result)
-    return result
+    return cube.copy(data=np.clip(cube.data, minimum_value, maximum_value))
 
 
 def expand_bounds(
-- 
2.43.0


From f064bfee705624a85b5c749c6f9102a8e2821c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 27/85] fix: regrid cubes with percentile and other
 non-standard dimensions

---
 improver/regrid/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/regrid/grid.py b/improver/regrid/grid.py
index 0157aca..6336060 100644
--- a/improver/regrid/grid.py
+++ b/improver/regrid/grid.py
@@ -79,7 +79,7 @@ def get_cube_coord_names(cube: Cube) -> List[str]:
     Returns:
         List of coordinate names.
     """
-    return [coord.standard_name for coord in cube.dim_coords]
+    return [coord.name() for coord in cube.dim_coords]
 
 
 def latlon_names(cube: Cube) -> Tuple[str, str]:
-- 
2.43.0


From d822af9fc3aaba8e5de75c9a0ec159092820727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 28/85] fix: keep cell methods when regridding

---
 improver/regrid/grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/regrid/grid.py b/improver/regrid/grid.py
index 6336060..6a99916 100644
--- a/improver/regrid/grid.py
+++ b/improver/regrid/grid.py
@@ -352,7 +352,12 @@ def create_regrid_cube(cube_array: ndarray, cube_in: Cube, cube_out: Cube) -> Cu
         Regridded result cube
     """
     # generate a cube based on new data and cube_in
-    cube_v = Cube(cube_array, units=cube_in.units, attributes=cube_in.attributes)
+    cube_v = Cube(
+        cube_array,
+        units=cube_in.units,
+        attributes=cube_in.attributes,
+        cell_methods=cube_in.cell_methods,
+    )
     cube_v.rename(cube_in.standard_name or cube_in.long_name)
     cube_v.var_name = cube_in.var_name
 
-- 
2.43.0


From d205052e33edded71e430ed9b950a8e607693583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 29/85] fix: invalid source points without weight have no
 influence on regridding

---
 improver/regrid/bilinear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/regrid/bilinear.py b/improver/regrid/bilinear.py
index 6b13018..c45fbe0 100644
--- a/improver/regrid/bilinear.py
+++ b/improver/regrid/bilinear.py
@@ -50,6 +50,8 @@ def apply_weights(
     weighted = np.transpose(
         np.multiply(np.transpose(weights), np.transpose(in_values_expanded))
     )
+    # source points without weight have no influence, even if they are invalid
+    weighted[weights == 0] = 0
     out_values = np.sum(weighted, axis=1)
     if input_array_masked:
         out_values = np.ma.masked_invalid(out_values)
-- 
2.43.0


From e26f803b7ca427c0384a57ccd75000dcb1b1f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 30/85] fix: regrid points just within the last row or column
 of the source grid

---
 improver/regrid/bilinear.py | 100 ++----------------------------------
 1 file changed, 5 insertions(+), 95 deletions(-)

diff --git a/improver/regrid/bilinear.py b/improver/regrid/bilinear.py
index c45fbe0..061792d 100644
--- a/improver/regrid/bilinear.py
+++ b/improver/regrid/bilinear.py
@@ -88,8 +88,11 @@ def basic_indexes(
     # Calculate input/output offset, expressed in terms of the spacing
     n_lat = (out_latlons[:, 0] - in_latlons[0, 0]) // lat_spacing
     m_lon = (out_latlons[:, 1] - in_latlons[0, 1]) // lon_spacing
-    n_lat = n_lat.astype(int)
-    m_lon = m_lon.astype(int)
+    # Target points on the last latitude or longitude of the source grid belong to the
+    # last grid cell
+    in_lats_size = in_latlons.shape[0] // in_lons_size
+    n_lat = np.clip(n_lat.astype(int), 0, in_lats_size - 2)
+    m_lon = np.clip(m_lon.astype(int), 0, in_lons_size - 2)
 
     # Four surrounding input points for each output point, in a rectangle shape
     index1 = n_lat * in_lons_size + m_lon
@@ -101,99 +104,6 @@ def basic_indexes(
     # note: lat (X) but ordering  (lat0, lon0)(lat0,lon1)....(lat0,lon_last),(lat1,lon0),
     indexes = np.transpose([index1, index2, index3, index4])
 
-    # if identical max latitude and/or longitude between source/target grids,index algorithm
-    # needs change at relevant boundary
-    lat_max_in, lon_max_in = in_latlons.max(axis=0)
-    lat_max_out, lon_max_out = out_latlons.max(axis=0)
-
-    lat_max_equal = np.isclose(lat_max_in, lat_max_out)
-    lon_max_equal = np.isclose(lon_max_in, lon_max_out)
-
-    if lat_max_equal or lon_max_equal:
-        indexes = adjust_boundary_indexes(
-            in_lons_size,
-            lat_max_equal,
-            lon_max_equal,
-            lat_max_in,
-            lon_max_in,
-            out_latlons,
-            indexes,
-        )
-
-    return indexes
-
-
-def adjust_boundary_indexes(
-    in_lons_size: int,
-    lat_max_equal: bool,
-    lon_max_equal: bool,
-    lat_max_in: float,
-    lon_max_in: float,
-    out_latlons: ndarray,
-    indexes: ndarray,
-) -> ndarray:
-    """
-    Adjust surrounding source point indexes for boundary target points.
-    it is required when maximum latitude and logitude are identical between
-    source and target grids.
-
-    Args:
-        in_lons_size:
-            Source grid's longitude dimension.
-        lat_max_equal:
-            Whether maximum latitude is identical between source/targin grids.
-        lon_max_equal:
-            Whether maximum longitude is identical between source/targin grids.
-        lat_max_in:
-            Input grid's maximum latitude.
-        lon_max_in:
-            Input grid's maximum longtitude.
-        out_latlons:
-            Target points's latitude-longitudes.
-        indexes:
-            Updated array of source grid point number for all target grid points.
-
-    Returns:
-        Updated array of source grid point number for all target grid points.
-        Array shape is (total number of target points, 4).
-    """
-    # find a list of target points with its latitude
-    if lat_max_equal:
-        point_lat_max = np.where(np.isclose(out_latlons[:, 0], lat_max_in))[0]
-    if lon_max_equal:
-        point_lon_max = np.where(np.isclose(out_latlons[:, 1], lon_max_in))[0]
-
-    if lon_max_equal and lat_max_equal:
-        point_lat_lon_max_index = np.where(
-            np.isclose(out_latlons[point_lat_max, 1], lon_max_in)
-        )[0]
-
-        # if point_lat_lon_max_index exists, handle it.
-        if point_lat_lon_max_index:
-            point_lat_lon_max = point_lat_max[point_lat_lon_max_index[0]]
-            point_lat_max = np.delete(
-                point_lat_max, np.where(point_lat_max == point_lat_lon_max)[0]
-            )
-            point_lon_max = np.delete(
-                point_lon_max, np.where(point_lon_max == point_lat_lon_max)[0]
-            )
-            indexes[point_lat_lon_max, 2] = indexes[point_lat_lon_max, 0]
-            indexes[point_lat_lon_max, 1] = indexes[point_lat_lon_max, 2] - 1
-            indexes[point_lat_lon_max, 0] = indexes[point_lat_lon_max, 1] - in_lons_size
-            indexes[point_lat_lon_max, 3] = indexes[point_lat_lon_max, 0] + 1
-
-    if lat_max_equal:
-        indexes[point_lat_max, 1] = indexes[point_lat_max, 0]
-        indexes[point_lat_max, 2] = indexes[point_lat_max, 1] + 1
-        indexes[point_lat_max, 0] = indexes[point_lat_max, 1] - in_lons_size
-        indexes[point_lat_max, 3] = indexes[point_lat_max, 0] + 1
-
-    if lon_max_equal:
-        indexes[point_lon_max, 0] = indexes[point_lon_max, 0] - 1
-        indexes[point_lon_max, 1] = indexes[point_lon_max, 1] - 1
-        indexes[point_lon_max, 2] = indexes[point_lon_max, 1] + 1
-        indexes[point_lon_max, 3] = indexes[point_lon_max, 0] + 1
-
     return indexes
 
 
-- 
2.43.0


From 618f144edc75baa7af37c439bd68b6c4eb7a4001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 31/85] fix: use the nearest grid points for sites when there
 is no land at all

---
 improver/spotdata/neighbour_finding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/spotdata/neighbour_finding.py b/improver/spotdata/neighbour_finding.py
index 1f345a9..37d5c46 100644
--- a/improver/spotdata/neighbour_finding.py
+++ b/improver/spotdata/neighbour_finding.py
@@ -508,9 +508,13 @@ class NeighbourSelection(BasePlugin):
             site_altitudes,
         )
 
+        # If the points must be on land but there is no land, no site has a
+        # matching neighbour and the nearest points are used.
+        any_candidates = not self.land_constraint or np.any(land_mask.data)
+
         # If further constraints are being applied, build a KD Tree which
         # includes points filtered by constraint.
-        if self.land_constraint or self.minimum_dz:
+        if (self.land_constraint or self.minimum_dz) and any_candidates:
             # Build the KDTree, an internal test for the land_constraint checks
             # whether to exclude sea points from the tree.
             tree, index_nodes = self.build_KDTree(land_mask)
-- 
2.43.0


From 4c3ea511530c0c1d72d56cee12dd280f83af452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 32/85] fix: adjust probabilities for height site by site, and
 correctly beyond the thresholds

---
 improver/spotdata/height_adjustment.py | 57 ++++++--------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/improver/spotdata/height_adjustment.py b/improver/spotdata/height_adjustment.py
index 9335f00..e77842f 100644
--- a/improver/spotdata/height_adjustment.py
+++ b/improver/spotdata/height_adjustment.py
@@ -5,14 +5,11 @@
 
 """Applies height adjustment for height above ground level spot forecasts."""
 
-from itertools import product
-
 import iris
 import numpy as np
 from iris.coords import DimCoord
 from iris.cube import Cube
 from iris.exceptions import CoordinateNotFoundError
-from scipy.interpolate import LinearNDInterpolator
 
 from improver import BasePlugin
 from improver.metadata.probabilistic import find_threshold_coordinate, is_probability
@@ -75,48 +72,20 @@ class SpotHeightAdjustment(BasePlugin):
         enforce_coordinate_ordering(
             spot_cube, ["spot_index", self.threshold_coord.name()]
         )
-        n_sites = len(spot_cube.coord("spot_index").points)
-        n_thresholds = len(self.threshold_coord.points)
-
         thresholds = self.threshold_coord.points
-        spot_index = spot_cube.coord("spot_index").points
-        shape = spot_cube.shape
-
-        # Maximum probability over all thresholds for each site.
-        broadcast_max = np.transpose(
-            np.broadcast_to(np.amax(spot_cube.data, axis=1), (n_thresholds, n_sites))
-        )
-        # Minimum probability over all thresholds for each site.
-        broadcast_min = np.transpose(
-            np.broadcast_to(np.amin(spot_cube.data, axis=1), (n_thresholds, n_sites))
-        )
-
-        broadcast_thresholds = np.broadcast_to(thresholds, (n_sites, n_thresholds))
-        broadcast_vertical_displacement = np.transpose(
-            np.broadcast_to(vertical_displacement.data, (n_thresholds, n_sites),)
-        )
-        desired_thresholds = broadcast_thresholds + broadcast_vertical_displacement.data
-
-        # creates a list of pairs of values of spot index with the thresholds that need to
-        # be calculated for the spot index
-        coord = list(product(spot_index, thresholds))
-        needed_pair = []
-        for index, threshold in zip(spot_index, desired_thresholds):
-            needed_pair.extend(list(product([index], threshold)))
-
-        # interpolate across the cube and request needed thresholds
-        interp = LinearNDInterpolator(coord, spot_cube.data.flatten())
-        spot_data = np.reshape(interp(needed_pair), shape)
-
-        # Points outside the range of the original data return NAN. These points are replaced
-        # with the highest or lowest along the axis depending on the whether the vertical
-        # displacement was positive or negative
-        indices = np.where(np.isnan(spot_data))
-        spot_data[indices] = np.where(
-            broadcast_vertical_displacement[indices] > 0,
-            broadcast_max[indices],
-            broadcast_min[indices],
-        )
+        ascending = np.argsort(thresholds)
+        displacements = np.atleast_1d(vertical_displacement.data)
+
+        # Interpolate between the thresholds of each site. Desired thresholds outside
+        # the range of the original thresholds take the probability of the lowest or
+        # highest original threshold.
+        spot_data = np.empty(spot_cube.shape, dtype=spot_cube.dtype)
+        for index, displacement in enumerate(displacements):
+            spot_data[index] = np.interp(
+                thresholds + displacement,
+                thresholds[ascending],
+                spot_cube.data[index][ascending],
+            )
         spot_cube.data = spot_data
         return spot_cube
 
-- 
2.43.0


From 1f714846ac32980666dc7d6d49bebde5d01e1bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 33/85] fix: extract two-dimensional coordinates at sites from
 x-y ordered cubes

---
 improver/spotdata/spot_extraction.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/improver/spotdata/spot_extraction.py b/improver/spotdata/spot_extraction.py
index 6cf91b7..b0668af 100644
--- a/improver/spotdata/spot_extraction.py
+++ b/improver/spotdata/spot_extraction.py
@@ -169,9 +169,16 @@ class SpotExtraction(BasePlugin):
         """
         coord_data = []
         coord = diagnostic_cube.coord(coordinate)
-        coord_data.append(coord.points[..., y_indices, x_indices])
+        points, bounds = coord.points, coord.bounds
+        # The dimensions of the coordinate may be in x-y order although those of
+        # the cube are in y-x order.
+        y_dim, x_dim = diagnostic_cube.coord_dims(coord)[-2:]
+        if y_dim > x_dim:
+            points = points.swapaxes(-2, -1)
+            bounds = None if bounds is None else bounds.swapaxes(-3, -2)
+        coord_data.append(points[..., y_indices, x_indices])
         if coord.has_bounds():
-            coord_data.append(coord.bounds[..., y_indices, x_indices, :])
+            coord_data.append(bounds[..., y_indices, x_indices, :])
         else:
             coord_data.append(None)
         return coord_data
-- 
2.43.0


From 88ba793852aae5dcd1bdf56ba280f8b680ee5ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 34/85] fix: add vertical displacements along the site
 dimension, wherever it is

---
 improver/spotdata/height_adjustment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/spotdata/height_adjustment.py b/improver/spotdata/height_adjustment.py
index e77842f..5c92eae 100644
--- a/improver/spotdata/height_adjustment.py
+++ b/improver/spotdata/height_adjustment.py
@@ -150,7 +150,10 @@ class SpotHeightAdjustment(BasePlugin):
             self.units = spot_cube.units
             spot_cube.convert_units("m")
 
+            coord_list = [c.name() for c in spot_cube.dim_coords]
+            enforce_coordinate_ordering(spot_cube, "spot_index", anchor_start=False)
             spot_cube.data = spot_cube.data + vertical_displacement.data
+            enforce_coordinate_ordering(spot_cube, coord_list)
             spot_cube.convert_units(self.units)
         spot_cube.data = spot_cube.data.astype(np.float32)
         return spot_cube
-- 
2.43.0


From 3fb5d44895a1056e7d6c45b7c93e59f5911ad356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 35/85] fix: allow a single percentile to be extracted at sites

---
 improver/spotdata/spot_manipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/spotdata/spot_manipulation.py b/improver/spotdata/spot_manipulation.py
index 859e555..0beec60 100644
--- a/improver/spotdata/spot_manipulation.py
+++ b/improver/spotdata/spot_manipulation.py
@@ -131,6 +131,8 @@ class SpotManipulation(BasePlugin):
         )
         self.apply_lapse_rate_correction = apply_lapse_rate_correction
         self.fixed_lapse_rate = fixed_lapse_rate
+        if extract_percentiles is not None:
+            extract_percentiles = np.atleast_1d(extract_percentiles).tolist()
         self.extract_percentiles = extract_percentiles
         self.ignore_ecc_bounds_exceedance = ignore_ecc_bounds_exceedance
         self.skip_ecc_bounds = skip_ecc_bounds
-- 
2.43.0


From 12d5daf55bd3ad84f45f34f4c528d4827af34edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 36/85] fix: keep the site dimension of a single site when
 percentiles are extracted

---
 improver/spotdata/spot_manipulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/spotdata/spot_manipulation.py b/improver/spotdata/spot_manipulation.py
index 0beec60..74a002c 100644
--- a/improver/spotdata/spot_manipulation.py
+++ b/improver/spotdata/spot_manipulation.py
@@ -215,7 +215,8 @@ class SpotManipulation(BasePlugin):
                         ecc_bounds_warning=self.ignore_ecc_bounds_exceedance,
                         skip_ecc_bounds=self.skip_ecc_bounds,
                     )(result, percentiles=extract_percentiles)
-                    result = iris.util.squeeze(result)
+                    if len(extract_percentiles) == 1:
+                        result = next(result.slices_over("percentile"))
                 elif result.coords("realization", dim_coords=True):
                     fast_percentile_method = not np.ma.is_masked(result.data)
                     result = PercentileConverter(
-- 
2.43.0


From 5dcd5d4b70d64fb79a89d0d7cba02eb29868d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 37/85] fix: extract cubes at sites that have a length-one
 dimension with several coordinates

---
 improver/spotdata/spot_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/spotdata/spot_extraction.py b/improver/spotdata/spot_extraction.py
index b0668af..bbf07a1 100644
--- a/improver/spotdata/spot_extraction.py
+++ b/improver/spotdata/spot_extraction.py
@@ -143,7 +143,7 @@ class SpotExtraction(BasePlugin):
                 nonscalar_coords.append(
                     coord.copy(points=coord_points, bounds=coord_bounds)
                 )
-            elif coord.points.size == 1:
+            elif not diagnostic_cube.coord_dims(coord):
                 scalar_coords.append(coord)
         return scalar_coords, nonscalar_coords
 
-- 
2.43.0


From fac053f5e2b167294dbeb46ad0e0d56b269249bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 38/85] fix: mask advected points whose source is beyond the
 last row or column

---
 improver/nowcasting/forecasting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/nowcasting/forecasting.py b/improver/nowcasting/forecasting.py
index 0dda7f2..4dfe905 100644
--- a/improver/nowcasting/forecasting.py
+++ b/improver/nowcasting/forecasting.py
@@ -187,7 +187,7 @@ class AdvectField(BasePlugin):
         # the bounds of the field, set the output field to 0
         def point_in_bounds(x, y, nx, ny):
             """Check point (y, x) lies within defined bounds"""
-            return (x >= 0.0) & (x < nx) & (y >= 0.0) & (y < ny)
+            return (x >= 0.0) & (x <= nx - 1) & (y >= 0.0) & (y <= ny - 1)
 
         cond_pt = point_in_bounds(xsrc_point_frac, ysrc_point_frac, xdim, ydim)
         adv_field[cond_pt] = 0
-- 
2.43.0


From 1391a4f3ed6b62f94b423e36fea6546ed3a87348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 39/85] fix: do not carry the site layout of a previous cube
 over to the day-night mask of a grid

---
 improver/utilities/solar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index 1db25ec..e3850cb 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -289,8 +289,8 @@ class DayNightMask(BasePlugin):
         for dim in set([cube.coord_dims(crd) for crd in slice_coords]):
             spatial_coords.append(cube.coords(dimensions=dim)[0])
 
-        if len(spatial_coords) != len(slice_coords):
-            self.irregular = True
+        self.irregular = len(spatial_coords) != len(slice_coords)
+        if self.irregular:
             slice_coords = spatial_coords
 
         if cube.coord("time") in cube.coords(dim_coords=True):
-- 
2.43.0


From 72595fb00bc5729f647ab65c9e5afbaba2f2350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 40/85] fix: use the time bounds of each time in the day-night
 mask

---
 improver/utilities/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index e3850cb..905a50c 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -394,7 +394,7 @@ class DayNightMask(BasePlugin):
         modified_masks = iris.cube.CubeList()
         for mask_cube in daynight_mask.slices_over("time"):
             if mask_cube.coord("time").has_bounds():
-                lb, ub = cube.coord("time").cell(0).bound
+                lb, ub = mask_cube.coord("time").cell(0).bound
                 dtval = lb + (ub - lb) / 2
             else:
                 dtval = mask_cube.coord("time").cell(0).point
-- 
2.43.0


From b1dc83793b5add98ab416ddb5769024b2179266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:43 +0000
Subject: [PATCH 41/85] fix: keep length-one spatial dimensions in the modal
 category

---
 improver/categorical/modal_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/categorical/modal_code.py b/improver/categorical/modal_code.py
index 0c09b3a..6475d98 100644
--- a/improver/categorical/modal_code.py
+++ b/improver/categorical/modal_code.py
@@ -166,7 +166,7 @@ class ModalCategory(BasePlugin):
         mode_result[counts < minimum_significant_count] = (
             self.code_max - self.unset_code_indicator
         )
-        return self.code_max - np.squeeze(mode_result)
+        return self.code_max - np.squeeze(mode_result, axis=0)
 
     @staticmethod
     def _set_blended_times(cube: Cube) -> None:
-- 
2.43.0


From aeb02bac1ccac123cbe1d5eed2ff1a91de6b87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:43 +0000
Subject: [PATCH 42/85] fix: follow decision tree nodes whose outcomes both
 lead to the same node

---
 improver/categorical/decision_tree.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index a3606a9..84593a6 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -841,6 +841,12 @@ class ApplyDecisionTree(BasePlugin):
                     current = copy.copy(self.queries[current_node])
                     next_node = route[i_node + 1]
 
+                    if "leaf" not in current and (
+                        current["if_true"] == current["if_false"]
+                    ):
+                        # Both outcomes lead to the next node.
+                        continue
+
                     if current.get("if_false") == next_node:
 
                         (
@@ -849,6 +855,10 @@ class ApplyDecisionTree(BasePlugin):
                         ) = self.invert_condition(current)
                     if "leaf" not in current.keys():
                         conditions.append(self.create_condition_chain(current))
+                if not conditions:
+                    # Nothing needs deciding on this route.
+                    categories.data[...] = category_code
+                    continue
                 test_chain = [conditions, "AND"]
 
                 # Set grid locations to suitable category
-- 
2.43.0


From 0de8ac69d6da07c09328587f2be58573519ede4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:43 +0000
Subject: [PATCH 43/85] fix: evaluate operators of equal precedence in decision
 trees from left to right

---
 improver/categorical/decision_tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 84593a6..f28e016 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -701,10 +701,10 @@ class ApplyDecisionTree(BasePlugin):
                         + curr_expression[idx + 1 :]
                     )
             # evaluate operators in order of precedence
-            for op_str in ["/", "*", "+", "-"]:
+            for op_strs in [("/", "*"), ("+", "-")]:
                 while len(curr_expression) > 1:
                     for idx, item in enumerate(curr_expression):
-                        if isinstance(item, str) and (item == op_str):
+                        if isinstance(item, str) and (item in op_strs):
                             left_arg = curr_expression[idx - 1]
                             right_arg = curr_expression[idx + 1]
                             if isinstance(left_arg, iris.Constraint):
@@ -715,7 +715,7 @@ class ApplyDecisionTree(BasePlugin):
                                 right_eval = cubes.extract(right_arg)[0].data
                             else:
                                 right_eval = right_arg
-                            op = operator_map[op_str]
+                            op = operator_map[item]
                             res = op(left_eval, right_eval)
                             curr_expression = (
                                 curr_expression[: idx - 1]
-- 
2.43.0


From ea6411558107e4f6be40046743a4b6f0e85c31a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 44/85] fix: keep masked points masked in the feels like
 temperature

---
 improver/feels_like_temperature.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/feels_like_temperature.py b/improver/feels_like_temperature.py
index e0460d1..d3c5df8 100644
--- a/improver/feels_like_temperature.py
+++ b/improver/feels_like_temperature.py
@@ -166,6 +166,12 @@ def _feels_like_temperature(
 
     feels_like_temperature[temperature > 20] = apparent_temperature[temperature > 20]
 
+    # Any masked input value masks the corresponding output value.
+    if np.ma.is_masked(temp_flt):
+        feels_like_temperature = np.ma.masked_array(
+            feels_like_temperature, mask=np.ma.getmaskarray(temp_flt)
+        )
+
     return feels_like_temperature
 
 
-- 
2.43.0


From 431a36a7e96816fc49bf2ae29a3e4734bd8c9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 45/85] fix: mask the wet bulb temperature where any input is
 masked

---
 .../wet_bulb_temperature.py                         | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/improver/psychrometric_calculations/wet_bulb_temperature.py b/improver/psychrometric_calculations/wet_bulb_temperature.py
index 9286b46..6aaac49 100644
--- a/improver/psychrometric_calculations/wet_bulb_temperature.py
+++ b/improver/psychrometric_calculations/wet_bulb_temperature.py
@@ -199,6 +199,7 @@ class WetBulbTemperature(BasePlugin):
         """
         # Initialise psychrometric variables
         wbt_data_upd = wbt_data = temperature.flatten()
+        input_pressure = pressure
         pressure = pressure.flatten()
 
         latent_heat = _calculate_latent_heat(wbt_data)
@@ -240,7 +241,17 @@ class WetBulbTemperature(BasePlugin):
 
             iteration += 1
 
-        return wbt_data.reshape(temperature.shape)
+        wbt_data = wbt_data.reshape(temperature.shape)
+
+        # Any masked input value masks the corresponding output value.
+        mask = (
+            np.ma.getmaskarray(temperature)
+            | np.ma.getmaskarray(relative_humidity)
+            | np.ma.getmaskarray(input_pressure)
+        )
+        if mask.any():
+            wbt_data = np.ma.masked_array(wbt_data, mask=mask)
+        return wbt_data
 
     def create_wet_bulb_temperature_cube(
         self, temperature: Cube, relative_humidity: Cube, pressure: Cube
-- 
2.43.0


From 3c3eb4b58be4166b48ee007094801e70c89f3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 46/85] fix: keep the hail size where the wet bulb freezing
 level is just below 3350 m

---
 improver/psychrometric_calculations/hail_size.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/psychrometric_calculations/hail_size.py b/improver/psychrometric_calculations/hail_size.py
index 16dcf2f..e5d9bb5 100644
--- a/improver/psychrometric_calculations/hail_size.py
+++ b/improver/psychrometric_calculations/hail_size.py
@@ -297,7 +297,7 @@ class HailSize(BasePlugin):
             2) vertical or horizontal values are negative,
             3) the wet bulb freezing altitude is greater that 4400m.
 
-        If the wet bulb freezing altitude is greater that 3300m then the hail_size is reduced.
+        If the wet bulb freezing altitude is greater than 3350m then the hail_size is reduced.
 
         Args:
             vertical:
@@ -335,7 +335,7 @@ class HailSize(BasePlugin):
             vertical_clipped.astype(int), horizontal_clipped.astype(int)
         ]
         hail_size = np.where(
-            wet_bulb_zero >= 3300,
+            wet_bulb_zero >= 3350,
             self.updated_hail_size(hail_size, wet_bulb_zero),
             hail_size,
         )
-- 
2.43.0


From d53b21a46fe13660df1a400a7dc58cd85dddaa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 47/85] fix: keep leading dimensions of length one in the phase
 change level

---
 .../psychrometric_calculations/psychrometric_calculations.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/psychrometric_calculations/psychrometric_calculations.py b/improver/psychrometric_calculations/psychrometric_calculations.py
index 3c15416..32e8055 100644
--- a/improver/psychrometric_calculations/psychrometric_calculations.py
+++ b/improver/psychrometric_calculations/psychrometric_calculations.py
@@ -850,6 +850,10 @@ class PhaseChangeLevel(BasePlugin):
         )
         template = next(wbt.slices_over(["height"])).copy()
         template.remove_coord("height")
+        # restore any leading dimensions of length one
+        phase_change_level = phase_change_level.reshape(
+            template.shape[:-2] + phase_change_level.shape[-2:]
+        )
         return create_new_diagnostic_cube(
             name, "m", template, attributes, data=phase_change_level
         )
-- 
2.43.0


From 4d561cd768fba8d31c15b63f4a2c4e7d7109895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 48/85] fix: average freezing rain over the common realizations
 only

---
 improver/precipitation_type/freezing_rain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/precipitation_type/freezing_rain.py b/improver/precipitation_type/freezing_rain.py
index 94675a3..0c72c4f 100644
--- a/improver/precipitation_type/freezing_rain.py
+++ b/improver/precipitation_type/freezing_rain.py
@@ -293,6 +293,7 @@ class FreezingRain(PostProcessingPlugin):
 
         if n_realizations is not None:
             self._extract_common_realizations()
+            n_realizations = len(self.rain.coord("realization").points)
 
         freezing_rain_cube = self._calculate_freezing_rain_probability(n_realizations)
 
-- 
2.43.0


From 709d6b0f993e9012ccea398e90b20e32996e2795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 49/85] fix: report differing numbers of thresholds in freezing
 rain inputs

---
 improver/precipitation_type/freezing_rain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/precipitation_type/freezing_rain.py b/improver/precipitation_type/freezing_rain.py
index 0c72c4f..729b1c5 100644
--- a/improver/precipitation_type/freezing_rain.py
+++ b/improver/precipitation_type/freezing_rain.py
@@ -94,7 +94,7 @@ class FreezingRain(PostProcessingPlugin):
         except ValueError:
             raise ValueError("Rain and sleet cubes have incompatible units")
 
-        if not all(rain_threshold.points == sleet_threshold.points):
+        if not np.array_equal(rain_threshold.points, sleet_threshold.points):
             raise ValueError("Rain and sleet cubes have different threshold values")
 
         # Ensure probabilities relate to temperatures below a threshold
-- 
2.43.0


From d87ddfd6980835bff22add66af91351dd35b2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 50/85] fix: do not change the roughness lengths held by the
 wind downscaling plugin

---
 improver/wind_calculations/wind_downscaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/wind_calculations/wind_downscaling.py b/improver/wind_calculations/wind_downscaling.py
index 5a69a5f..3738d4c 100644
--- a/improver/wind_calculations/wind_downscaling.py
+++ b/improver/wind_calculations/wind_downscaling.py
@@ -146,13 +146,13 @@ class RoughnessCorrectionUtilities:
                 Float - Grid cell length of model grid
         """
         self.a_over_s = a_over_s
-        self.z_0 = z_0
+        self.z_0 = np.copy(z_0) if z_0 is not None else None
         self.pporo = pporo
         self.modoro = modoro
         self.h_over_2 = self.sigma2hover2(sigma)  # half peak to trough height
         self.hcmask, self.rcmask = self._setmask()  # HC mask, RC mask
         if self.z_0 is not None:
-            self.z_0[z_0 <= 0] = Z0M_SEA
+            self.z_0[self.z_0 <= 0] = Z0M_SEA
         self.dx_min = ppres / 2.0  # scales smaller than this not resolved in pp
         # the original code had hardcoded 500
         self.dx_max = 3.0 * modres  # scales larger than this resolved in model
-- 
2.43.0


From 524e01818b4790f89d1f96540025d78f84071f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 51/85] fix: forget the results of earlier calls in the mean
 wind direction

---
 improver/wind_calculations/wind_direction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_direction.py b/improver/wind_calculations/wind_direction.py
index bd1f8ce..f9230b7 100644
--- a/improver/wind_calculations/wind_direction.py
+++ b/improver/wind_calculations/wind_direction.py
@@ -237,6 +237,7 @@ class WindDirection(PostProcessingPlugin):
             msg = "Input cube cannot be converted to degrees: {}".format(err)
             raise ValueError(msg)
 
+        self.wdir_cube_list = iris.cube.CubeList()
         self.n_realizations = len(cube_ens_wdir.coord("realization").points)
         y_coord_name = cube_ens_wdir.coord(axis="y").name()
         x_coord_name = cube_ens_wdir.coord(axis="x").name()
-- 
2.43.0


From 122bca5e7a7b7f1e478046cebd8165968d4c5462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:36 +0000
Subject: [PATCH 52/85] fix: keep length-one dimensions of gridded lapse rates

---
 improver/lapse_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index 7c562a6..2b4f191 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -456,7 +456,7 @@ class LapseRate(BasePlugin):
             lapse_rate_data.append(lapse_rate_array)
         lapse_rate_data = np.array(lapse_rate_data)
         if not has_realization_dimension:
-            lapse_rate_data = np.squeeze(lapse_rate_data)
+            lapse_rate_data = lapse_rate_data[0]
 
         attributes = generate_mandatory_attributes(
             [temperature], model_id_attr=model_id_attr
-- 
2.43.0


From 5cee8f551c7117f83d873ba192e5663433cca506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 53/85] fix: calculate gridded lapse rates for any order of the
 spatial dimensions

---
 improver/lapse_rate.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index 2b4f191..0e9a775 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -438,10 +438,9 @@ class LapseRate(BasePlugin):
 
         # Create list of arrays over "realization" coordinate
         has_realization_dimension = False
-        original_dimension_order = None
+        original_dimension_order = get_dim_coord_names(temperature_cube)
+        enforce_coordinate_ordering(temperature_cube, ["realization", y_coord, x_coord])
         if temperature_cube.coords("realization", dim_coords=True):
-            original_dimension_order = get_dim_coord_names(temperature_cube)
-            enforce_coordinate_ordering(temperature_cube, "realization")
             temp_data_slices = temperature_cube.data
             has_realization_dimension = True
         else:
@@ -469,7 +468,6 @@ class LapseRate(BasePlugin):
             data=lapse_rate_data,
         )
 
-        if original_dimension_order:
-            enforce_coordinate_ordering(lapse_rate_cube, original_dimension_order)
+        enforce_coordinate_ordering(lapse_rate_cube, original_dimension_order)
 
         return lapse_rate_cube
-- 
2.43.0


From 08176ec4b010ef95f30778526082a6f00c60f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 54/85] fix: keep the names when multiplying probabilities
 without a new name

---
 improver/metadata/amend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/metadata/amend.py b/improver/metadata/amend.py
index f4c0b8f..1e0d112 100644
--- a/improver/metadata/amend.py
+++ b/improver/metadata/amend.py
@@ -123,6 +123,10 @@ def update_diagnostic_name(source_cube: Cube, new_diagnostic_name: str, result:
         result: The cube that needs to be modified in place.
 
     """
+    if new_diagnostic_name == source_cube.name():
+        result.rename(new_diagnostic_name)
+        return
+
     new_base_name = new_diagnostic_name.replace("_in_variable_vicinity", "")
     new_base_name = new_base_name.replace("_in_vicinity", "")
     original_name = source_cube.name()
-- 
2.43.0


From cb083eca6d9c639f67aa522227be70088051f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 55/85] fix: forget the names of earlier calls when combining
 cubes

---
 improver/cube_combiner.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 6968ed8..02861be 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -105,8 +105,7 @@ class Combine(BasePlugin):
         """
         cubes = as_cubelist(*cubes)
 
-        if self.new_name is None:
-            self.new_name = cubes[0].name()
+        new_name = cubes[0].name() if self.new_name is None else self.new_name
 
         if self.minimum_realizations is None:
             filtered_cubes = cubes
@@ -125,7 +124,7 @@ class Combine(BasePlugin):
                     f"({self.minimum_realizations})"
                 )
             filtered_cubes = cube.slices_over("time")
-        return self.plugin(CubeList(filtered_cubes), self.new_name)
+        return self.plugin(CubeList(filtered_cubes), new_name)
 
 
 def masked_add(
@@ -356,14 +355,15 @@ class CubeCombiner(BasePlugin):
         """
         target_cube = cube_list[0]
 
-        if self.broadcast == "threshold":
-            self.broadcast = find_threshold_coordinate(cube_list[0]).name()
+        broadcast = self.broadcast
+        if broadcast == "threshold":
+            broadcast = find_threshold_coordinate(cube_list[0]).name()
 
         try:
-            target_coord = target_cube.coord(self.broadcast)
+            target_coord = target_cube.coord(broadcast)
         except CoordinateNotFoundError:
             raise CoordinateNotFoundError(
-                f"Cannot find coord {self.broadcast} in {repr(target_cube)} to broadcast to"
+                f"Cannot find coord {broadcast} in {repr(target_cube)} to broadcast to"
             )
 
         new_list = CubeList([])
-- 
2.43.0


From ef6080948f8446436c832053333ed99ffdc517e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:36 +0000
Subject: [PATCH 56/85] fix: do not modify the inputs of temporal interpolation

---
 improver/utilities/temporal_interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index d887c65..9f4fce5 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -627,6 +627,7 @@ class TemporalInterpolation(BasePlugin):
         # directions. Convert the directions to complex numbers so
         # interpolations (esp. the 0/360 wraparound) are handled in a sane
         # fashion.
+        cube_t0, cube_t1 = cube_t0.copy(), cube_t1.copy()
         if cube_t0.units == "degrees" and cube_t1.units == "degrees":
             cube_t0.data = deg_to_complex(cube_t0.data)
             cube_t1.data = deg_to_complex(cube_t1.data)
-- 
2.43.0


From ab3dc6169e9b6d945ef86af44a30528f5612d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:36 +0000
Subject: [PATCH 57/85] fix: do not add the final time to the times asked of
 later temporal interpolations

---
 improver/utilities/temporal_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index 9f4fce5..9802eba 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -213,7 +213,7 @@ class TemporalInterpolation(BasePlugin):
                     "List of times falls outside the range given by "
                     "initial_time and final_time. "
                 )
-            time_list = self.times
+            time_list = list(self.times)
         elif self.interval_in_minutes is not None:
             if (final_time - initial_time).seconds % (
                 60 * self.interval_in_minutes
-- 
2.43.0


From d970f5665a4bd442de9cfa04783ff5e79be020b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:36 +0000
Subject: [PATCH 58/85] fix: interpolate between validity times that are a day
 or more apart

---
 improver/utilities/temporal_interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index 9802eba..0207629 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -215,7 +215,7 @@ class TemporalInterpolation(BasePlugin):
                 )
             time_list = list(self.times)
         elif self.interval_in_minutes is not None:
-            if (final_time - initial_time).seconds % (
+            if (final_time - initial_time).total_seconds() % (
                 60 * self.interval_in_minutes
             ) != 0:
                 msg = (
@@ -223,7 +223,7 @@ class TemporalInterpolation(BasePlugin):
                     " divide into the interval of"
                     " {} mins equally.".format(
                         self.interval_in_minutes,
-                        int((final_time - initial_time).seconds / 60),
+                        int((final_time - initial_time).total_seconds() / 60),
                     )
                 )
                 raise ValueError(msg)
@@ -356,7 +356,7 @@ class TemporalInterpolation(BasePlugin):
         dtval_next = dtvals[1]
         sin_phi_next = self.calc_sin_phi(dtval_next, lats, lons)
         # Length of time between beginning and end in seconds
-        diff_step = (dtval_next - dtval_prev).seconds
+        diff_step = (dtval_next - dtval_prev).total_seconds()
 
         for single_time in interpolated_cube.slices_over("time"):
             # Calculate sine of solar elevation for cube at this
@@ -364,7 +364,7 @@ class TemporalInterpolation(BasePlugin):
             dtval_interp = iris_time_to_datetime(single_time.coord("time"))[0]
             sin_phi_interp = self.calc_sin_phi(dtval_interp, lats, lons)
             # Length of time between beginning and interpolated time in seconds
-            diff_interp = (dtval_interp - dtval_prev).seconds
+            diff_interp = (dtval_interp - dtval_prev).total_seconds()
             # Set all values to 0.0, to be replaced
             # with values calculated through this solar method.
             single_time.data[:] = 0.0
-- 
2.43.0


From 5a5d358ec985262a729b28db27e3deb4057ac15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 59/85] fix: return zero rather than NaN when interpolating
 accumulations of zero

---
 improver/utilities/temporal_interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index 0207629..0968878 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -510,6 +510,8 @@ class TemporalInterpolation(BasePlugin):
         # total expressed in the longer original period.
         (time_coord,) = interpolated_cube.coord_dims("time")
         interpolated_total = np.sum(interpolated_cube.data, axis=time_coord)
+        # Points without any accumulation remain zero.
+        interpolated_total[interpolated_total == 0] = 1
         renormalisation = period_reference.data / interpolated_total
         interpolated_cube.data *= renormalisation
         interpolated_cube.data = interpolated_cube.data.astype(FLOAT_DTYPE)
-- 
2.43.0


From d50488c278ea7ad6d93ab0244cd4cfad9c6eba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:00 +0000
Subject: [PATCH 60/85] fix: keep masks when interpolating accumulations in
 time

---
 improver/utilities/temporal_interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index 0968878..3bae52f 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -491,12 +491,14 @@ class TemporalInterpolation(BasePlugin):
         """
         # Calculate an average rate for the period from the edges
         accumulation_edges = [cube_t0, *interpolated_cube.slices_over("time")]
-        period_rates = np.array(
+        period_rates = np.ma.stack(
             [
                 (a.data + b.data) / 2
                 for a, b in zip(accumulation_edges[:-1], accumulation_edges[1:])
             ]
         )
+        if not np.ma.is_masked(period_rates):
+            period_rates = np.array(period_rates)
         interpolated_cube.data = period_rates
 
         # Multiply the average rate by the length of each period to get a new
-- 
2.43.0


From 9c949fba62559868f43039bddd10a5252752a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 61/85] fix: recognise the end of a date format in attribute
 changes

---
 improver/metadata/amend.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/improver/metadata/amend.py b/improver/metadata/amend.py
index 1e0d112..5363a59 100644
--- a/improver/metadata/amend.py
+++ b/improver/metadata/amend.py
@@ -36,16 +36,11 @@ def amend_attributes(cube: Cube, attributes_dict: Dict[str, Any]) -> None:
             wall-clock time, formatted as specified.
     """
     for attribute_name, value in attributes_dict.items():
-        re_now = r"({now:.*})"
-        # We use the DOTALL flag below to tell regex that . should match new-line
-        # characters as well as everything else. Therefore, the match below is for
-        # any string that contains the word now inside curly braces, with a colon
-        # and any format specifier. This now section is returned as a group in
-        # position 1 of has_now, which we will use to format the current time.
-        has_now = re.match(rf".*{re_now}.*", value, re.DOTALL)
-        if has_now:
-            now = has_now[1].format(now=datetime.now())
-            value = re.sub(re_now, now, value)
+        # Each {now:format} is replaced by the current time in that format, which
+        # ends at the first closing brace.
+        value = re.sub(
+            r"{now:[^}]*}", lambda match: match[0].format(now=datetime.now()), value
+        )
         if value == "remove":
             cube.attributes.pop(attribute_name, None)
         elif "{}" in value:
-- 
2.43.0


From 325cd2786acb475886a48ac9f528f82ae205159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 62/85] fix: copy attributes whose values are not text or look
 like changes

---
 improver/utilities/copy_attributes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/improver/utilities/copy_attributes.py b/improver/utilities/copy_attributes.py
index b624884..b4fdfa8 100644
--- a/improver/utilities/copy_attributes.py
+++ b/improver/utilities/copy_attributes.py
@@ -7,7 +7,6 @@ from typing import List, Tuple, Union
 from iris.cube import Cube, CubeList
 
 from improver import BasePlugin
-from improver.metadata.amend import amend_attributes
 from improver.utilities.common_input_handle import as_cube, as_cubelist
 
 
@@ -48,5 +47,5 @@ class CopyAttributes(BasePlugin):
 
         for cube in cubes_proc:
             new_attributes = {k: template_cube.attributes[k] for k in self.attributes}
-            amend_attributes(cube, new_attributes)
+            cube.attributes.update(new_attributes)
         return cubes if len(cubes) > 1 else cubes[0]
-- 
2.43.0


From 7ac2783b3cd05d04d0745f65875c2f207dc25e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 63/85] fix: do not add optional attributes to the mandatory
 attributes given for a new diagnostic

---
 improver/metadata/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/metadata/utilities.py b/improver/metadata/utilities.py
index ffbd131..9082c67 100644
--- a/improver/metadata/utilities.py
+++ b/improver/metadata/utilities.py
@@ -59,7 +59,7 @@ def create_new_diagnostic_cube(
     Returns:
         Cube with correct metadata to accommodate new diagnostic field
     """
-    attributes = mandatory_attributes
+    attributes = mandatory_attributes.copy()
     if optional_attributes is not None:
         attributes.update(optional_attributes)
 
-- 
2.43.0


From 27d5f74b3fae627c2ec38b9095458b2e6aebbd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 64/85] fix: keep a realization dimension of length one when
 removing status flags

---
 improver/standardise.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/improver/standardise.py b/improver/standardise.py
index 5e70fd5..9851043 100644
--- a/improver/standardise.py
+++ b/improver/standardise.py
@@ -8,8 +8,9 @@ from typing import Any, Dict, List, Optional
 
 import numpy as np
 from iris.coords import CellMethod
-from iris.cube import Cube, CubeList
+from iris.cube import Cube
 from iris.exceptions import CoordinateNotFoundError
+from iris.util import broadcast_to_shape
 from numpy import dtype, ndarray
 
 from improver import BasePlugin
@@ -89,24 +90,16 @@ class StandardiseMetadata(BasePlugin):
                 raise ValueError(
                     f"'{coord_name}' coordinate is not of the expected form."
                 )
-            ncube = CubeList()
-
-            try:
-                cube_iterator = cube.slices_over("realization")
-            except CoordinateNotFoundError:
-                cube_iterator = [cube]
-
-            for cc in cube_iterator:
-                coord = cc.coord(coord_name)
-                if np.ma.is_masked(coord.points):
-                    raise ValueError(
-                        f"'{coord_name}' coordinate has unexpected mask values."
-                    )
-                mask = np.asarray(coord.points)
-                cc.data[mask.astype(bool)] = np.nan
-                cc.remove_coord(coord_name)
-                ncube.append(cc)
-            cube = ncube.merge_cube()
+            if np.ma.is_masked(coord.points):
+                raise ValueError(
+                    f"'{coord_name}' coordinate has unexpected mask values."
+                )
+            mask = broadcast_to_shape(
+                np.asarray(coord.points), cube.shape, cube.coord_dims(coord)
+            )
+            cube = cube.copy()
+            cube.data[mask.astype(bool)] = np.nan
+            cube.remove_coord(coord_name)
         return cube
 
     @staticmethod
-- 
2.43.0


From cd6c3594db5f96ecd845ff658ccee29777801940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:13 +0000
Subject: [PATCH 65/85] fix: include the ends of ranges of negative values in
 constraints

---
 improver/utilities/cube_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/cube_constraints.py b/improver/utilities/cube_constraints.py
index 51aeab6..6c11cba 100644
--- a/improver/utilities/cube_constraints.py
+++ b/improver/utilities/cube_constraints.py
@@ -41,8 +41,8 @@ def create_sorted_lambda_constraint(
     """
     values = [float(i) for i in values]
     values = sorted(values)
-    values[0] = (1.0 - tolerance) * values[0]
-    values[1] = (1.0 + tolerance) * values[1]
+    values[0] = values[0] - tolerance * abs(values[0])
+    values[1] = values[1] + tolerance * abs(values[1])
     constr = iris.Constraint(
         coord_values={coord_name: lambda cell: values[0] <= cell.point <= values[1]}
     )
-- 
2.43.0


From 05eea3d8e6add3238efb46bd28c7fa6db9a7e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:13 +0000
Subject: [PATCH 66/85] fix: do not modify the inputs when applying a mask

---
 improver/utilities/mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/mask.py b/improver/utilities/mask.py
index db3b4af..35da57f 100644
--- a/improver/utilities/mask.py
+++ b/improver/utilities/mask.py
@@ -52,7 +52,8 @@ def apply_mask(
 
     mask = cubes.extract_cube(mask_name)
     cubes.remove(mask)
-    cube = cubes[0]
+    mask = mask.copy()
+    cube = cubes[0].copy()
 
     # Ensure mask is in a boolean form and invert if requested
     mask.data = mask.data.astype(np.bool)
-- 
2.43.0


From dd9ff237dc828f672d3a2e2cc896a3d600b1c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:13 +0000
Subject: [PATCH 67/85] fix: keep new dimensions in place whatever the order in
 which they are listed

---
 improver/utilities/cube_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/cube_checker.py b/improver/utilities/cube_checker.py
index af85cd9..5caafa8 100644
--- a/improver/utilities/cube_checker.py
+++ b/improver/utilities/cube_checker.py
@@ -114,7 +114,7 @@ def check_cube_coordinates(
             raise CoordinateNotFoundError(msg)
 
     correct_order = np.array(correct_order)
-    for dim in new_cube_only_dims:
+    for dim in sorted(new_cube_only_dims):
         correct_order = np.insert(correct_order, dim, dim)
 
     new_cube.transpose(correct_order)
-- 
2.43.0


From f5f1945bf3533062bcf58cb80a5e6c6d38862d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 68/85] fix: keep the threshold of single threshold inputs to
 the texture of fields

---
 improver/utilities/textural.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/utilities/textural.py b/improver/utilities/textural.py
index 3a2fa04..0d9378d 100644
--- a/improver/utilities/textural.py
+++ b/improver/utilities/textural.py
@@ -211,6 +211,8 @@ class FieldTexture(BasePlugin):
             )
         )
         try:
+            # a cube with this threshold alone is extracted as itself
+            cube = cube.copy()
             cube.remove_coord(cube_name)
         except AttributeError:
             msg = "Threshold {} is not present on coordinate with values {} {}"
-- 
2.43.0


From 93cfe2faebb5866131c235daa962363f157bb25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 69/85] fix: distinguish small thresholds in the texture of
 fields

---
 improver/utilities/textural.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/textural.py b/improver/utilities/textural.py
index 0d9378d..eb24944 100644
--- a/improver/utilities/textural.py
+++ b/improver/utilities/textural.py
@@ -205,7 +205,7 @@ class FieldTexture(BasePlugin):
             iris.Constraint(
                 coord_values={
                     cube_name: lambda cell: np.isclose(
-                        cell.point, self.diagnostic_threshold
+                        cell.point, self.diagnostic_threshold, atol=0
                     )
                 }
             )
-- 
2.43.0


From 05370257cdc96877e2a31771e8c296b72babbedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 70/85] fix: do not convert the units of the reference given
 when enforcing consistency

---
 improver/utilities/forecast_reference_enforcement.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/utilities/forecast_reference_enforcement.py b/improver/utilities/forecast_reference_enforcement.py
index 594dfa0..cb9c818 100644
--- a/improver/utilities/forecast_reference_enforcement.py
+++ b/improver/utilities/forecast_reference_enforcement.py
@@ -120,6 +120,7 @@ class EnforceConsistentForecasts(PostProcessingPlugin):
         """
 
         # check forecast and reference units match
+        reference_forecast = reference_forecast.copy()
         try:
             reference_forecast.convert_units(forecast.units)
         except ValueError:
-- 
2.43.0


From 0f03cc1f830fa4eb72161d8a8f40bd326055c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 71/85] fix: refuse dimensions in a different order when
 normalising to a reference

---
 improver/utilities/forecast_reference_enforcement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/forecast_reference_enforcement.py b/improver/utilities/forecast_reference_enforcement.py
index cb9c818..9cf8f41 100644
--- a/improver/utilities/forecast_reference_enforcement.py
+++ b/improver/utilities/forecast_reference_enforcement.py
@@ -279,7 +279,9 @@ def normalise_to_reference(
                     coord_mismatch = True
                     mismatching_coords[cube.name()].append(dim_coord.name())
                     continue
-                if not dim_coord == reference_coord:
+                if not dim_coord == reference_coord or cube.coord_dims(
+                    dim_coord
+                ) != reference.coord_dims(reference_coord):
                     coord_mismatch = True
                     mismatching_coords[cube.name()].append(dim_coord.name())
 
-- 
2.43.0


From 69564045ee0b53a95d1eedcfb63ab351a9032384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:35 +0000
Subject: [PATCH 72/85] fix: update time bounds when masked neighbourhoods of
 repeated fields are reused

---
 improver/nbhood/use_nbhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/nbhood/use_nbhood.py b/improver/nbhood/use_nbhood.py
index f1c4c33..764490a 100644
--- a/improver/nbhood/use_nbhood.py
+++ b/improver/nbhood/use_nbhood.py
@@ -234,7 +234,7 @@ class ApplyNeighbourhoodProcessingWithAMask(PostProcessingPlugin):
                 # Use same result as last time!
                 prev_result = result_slices[-1].copy()
                 for coord in x_y_slice.coords(dim_coords=False):
-                    prev_result.coord(coord).points = coord.points.copy()
+                    prev_result.replace_coord(coord)
                 result_slices.append(prev_result)
                 continue
             prev_x_y_slice = x_y_slice
-- 
2.43.0


From 4846812f192eea0fc49e1fb8f6ef4d6180a984f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 73/85] fix: reuse masked neighbourhoods of repeated fields
 only for the same mask and radius

---
 improver/nbhood/use_nbhood.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/improver/nbhood/use_nbhood.py b/improver/nbhood/use_nbhood.py
index 764490a..7e6d6a9 100644
--- a/improver/nbhood/use_nbhood.py
+++ b/improver/nbhood/use_nbhood.py
@@ -228,8 +228,14 @@ class ApplyNeighbourhoodProcessingWithAMask(PostProcessingPlugin):
         # Take 2D slices of the input cube for memory issues.
         prev_x_y_slice = None
         for x_y_slice in cube.slices([yname, xname]):
-            if prev_x_y_slice is not None and np.array_equal(
-                prev_x_y_slice.data, x_y_slice.data
+            if (
+                prev_x_y_slice is not None
+                and self.lead_times is None
+                and np.array_equal(prev_x_y_slice.data, x_y_slice.data)
+                and np.array_equal(
+                    ma.getmaskarray(prev_x_y_slice.data),
+                    ma.getmaskarray(x_y_slice.data),
+                )
             ):
                 # Use same result as last time!
                 prev_result = result_slices[-1].copy()
-- 
2.43.0


From ae3d7f8a8759f6c23daa1039b8b5a9cdd94d9213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 74/85] fix: do not transpose the inputs when generating
 smoothing coefficients

---
 .../generate_orographic_smoothing_coefficients.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
index 904f74a..d5f4ffc 100644
--- a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
+++ b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
@@ -296,6 +296,7 @@ class OrographicSmoothingCoefficients(BasePlugin):
         # Enforce coordinate order for simpler processing.
         original_order = [crd.name() for crd in cube.coords(dim_coords=True)]
         target_order = [cube.coord(axis="y").name(), cube.coord(axis="x").name()]
+        cube = cube.copy()
         enforce_coordinate_ordering(cube, target_order)
 
         # Returns two cubes, ordered gradient in x and gradient in y.
@@ -321,6 +322,7 @@ class OrographicSmoothingCoefficients(BasePlugin):
 
         # If a mask has been provided, zero coefficients where required.
         if mask is not None:
+            mask = mask.copy()
             enforce_coordinate_ordering(mask, target_order)
             self.zero_masked(*smoothing_coefficients, mask)
 
-- 
2.43.0


From 23fa9123a3a62bc5b20ddb960b7cfe15978a325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 75/85] fix: recognise the threshold coordinates of several
 cubes loaded from one file

---
 improver/utilities/cube_manipulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 0c17dc7..eb0127b 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -4,6 +4,7 @@
 # See LICENSE in the root of the repository for full licensing details.
 """ Provides support utilities for cube manipulation."""
 
+import re
 import warnings
 from typing import Any, Dict, List, Optional, Union
 
@@ -139,8 +140,11 @@ def strip_var_names(cubes: Union[Cube, CubeList]) -> CubeList:
     for cube in cubes:
         cube.var_name = None
         for coord in cube.coords():
-            # retain var name required for threshold coordinate
-            if coord.var_name != "threshold":
+            # retain var name required for threshold coordinate; this is
+            # numbered where several such coordinates were saved to one file
+            if coord.var_name and re.fullmatch(r"threshold(_\d+)?", coord.var_name):
+                coord.var_name = "threshold"
+            else:
                 coord.var_name = None
     return cubes
 
-- 
2.43.0


From 30bb6bfdd510f741491316b61733a762a3b19879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:23 +0000
Subject: [PATCH 76/85] fix: choose the chunks of a file from the horizontal
 shape of all of its cubes

---
 improver/utilities/save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/save.py b/improver/utilities/save.py
index 98f3c4c..3c8b41d 100644
--- a/improver/utilities/save.py
+++ b/improver/utilities/save.py
@@ -99,7 +99,7 @@ def save_netcdf(
     # If all xy slices are the same shape, use this to determine
     # the chunksize for the netCDF (eg. 1, 1, 970, 1042)
     chunksizes = None
-    if len({cube.shape[:2] for cube in cubelist}) == 1:
+    if len({(cube.ndim, cube.shape[-2:]) for cube in cubelist}) == 1:
         cube = cubelist[0]
         if cube.ndim >= 2:
             xy_chunksizes = [cube.shape[-2], cube.shape[-1]]
-- 
2.43.0


From 126b38708771b99ea031bfa21ab61f610ef74ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:07 +0000
Subject: [PATCH 77/85] fix: do not invert the mask in apply-mask unless
 requested

---
 improver/cli/apply_mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/cli/apply_mask.py b/improver/cli/apply_mask.py
index 84f1c99..d323a54 100644
--- a/improver/cli/apply_mask.py
+++ b/improver/cli/apply_mask.py
@@ -10,7 +10,7 @@ from improver import cli
 
 @cli.clizefy
 @cli.with_output
-def process(*cubes: cli.inputcube, mask_name: str, invert_mask: bool = "False"):
+def process(*cubes: cli.inputcube, mask_name: str, invert_mask: bool = None):
     """
     Applies provided mask to cube data. The mask_name is used to extract the mask cube
     from the input cubelist. The other cube in the cubelist is then masked using the
-- 
2.43.0


From ef798800f4a5dd166609a14cf7730a87e60a10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:27 +0000
Subject: [PATCH 78/85] fix: accept text that is not valid python as the value
 of a constraint

---
 improver/utilities/cube_extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index ebf84d2..554ea46 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -133,7 +133,8 @@ def parse_constraint_list(
         else:
             try:
                 typed_value = literal_eval(value)
-            except ValueError:
+            except (ValueError, SyntaxError):
+                # names, and text such as "03002" that is not valid python
                 simple_constraints_dict[key] = value
             else:
                 simple_constraints_dict[key] = create_constraint(typed_value)
-- 
2.43.0


From 13ee8120b165d0e907fa8d230b8d8ce8fb8b6518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:27 +0000
Subject: [PATCH 79/85] fix: report that no subcube was found when a range of
 longitudes or steps is also asked for

---
 improver/utilities/cube_extraction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index 554ea46..fefacb9 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -206,6 +206,9 @@ def apply_extraction(
                     # an empty output cube (None) is handled by the CLI
                     pass
 
+    if output_cube is None:
+        return None
+
     if longitude_constraint:
         output_cube = output_cube.intersection(
             longitude=longitude_constraint, ignore_bounds=True
@@ -260,7 +263,7 @@ def extract_subcube(
         cube, constraints, units, use_original_units, longitude_constraint
     )
 
-    if thinning_dict:
+    if thinning_dict and output_cube is not None:
         output_cube = thin_cube(output_cube, thinning_dict)
 
     return output_cube
-- 
2.43.0


From a2c11c1e25c501b84261b879173befa35cd7a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 80/85] fix: bin features that are equal to a split as the tree
 models do

---
 improver/calibration/rainforest_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/rainforest_calibration.py b/improver/calibration/rainforest_calibration.py
index 1529e8d..7c6bc44 100644
--- a/improver/calibration/rainforest_calibration.py
+++ b/improver/calibration/rainforest_calibration.py
@@ -533,8 +533,9 @@ class ApplyRainForestsCalibrationLightGBM(ApplyRainForestsCalibration):
             binned_data = np.empty(input_data.shape, dtype=np.int32)
             n_features = len(feature_splits)
             for i in range(n_features):
+                # values equal to a split are on the same side of it as smaller values
                 binned_data[:, i] = np.digitize(
-                    input_data[:, i], bins=feature_splits[i]
+                    input_data[:, i], bins=feature_splits[i], right=True
                 )
             # sort so rows in the same bins are grouped
             sort_ind = np.lexsort(tuple([binned_data[:, i] for i in range(n_features)]))
-- 
2.43.0


From 0e762847f9eedfd04303ac9c833fc109a14978d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:47 +0000
Subject: [PATCH 81/85] fix: interpolate repeated values with numba as without
 it

---
 improver/ensemble_copula_coupling/numba_utilities.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/numba_utilities.py b/improver/ensemble_copula_coupling/numba_utilities.py
index 8d80d77..5a05bb7 100644
--- a/improver/ensemble_copula_coupling/numba_utilities.py
+++ b/improver/ensemble_copula_coupling/numba_utilities.py
@@ -35,7 +35,8 @@ def fast_interp_same_x(x: np.ndarray, xp: np.ndarray, fp: np.ndarray) -> np.ndar
         raise ValueError("xp must be 1-dimensional.")
     if fp.shape[1] != len(xp):
         raise ValueError("Dimension 1 of fp must be equal to length of xp.")
-    index = np.searchsorted(xp, x)
+    # As in np.interp, ind is the smallest index for which xp[ind] > x.
+    index = np.searchsorted(xp, x, side="right")
     result = np.empty((fp.shape[0], len(x)), dtype=np.float32)
     for row in prange(fp.shape[0]):
         for i, ind in enumerate(index):
@@ -88,15 +89,16 @@ def fast_interp_same_y(x: np.ndarray, xp: np.ndarray, fp: np.ndarray) -> np.ndar
             recalculate = False
             curr_x = x[j]
             # Find the indices of xp[i] to interpolate between. We need the
-            # smallest index ind of xp[i] for which xp[i, ind] >= curr_x.
+            # smallest index ind of xp[i] for which xp[i, ind] > curr_x, as in
+            # np.interp.
             if x_ordered:
                 # Since x and x[i] are non-decreasing, ind for current j must be
                 # greater than equal to ind for previous j.
-                while (ind < max_ind) and (xp[i, ind] < curr_x):
+                while (ind < max_ind) and (xp[i, ind] <= curr_x):
                     ind = ind + 1
                     recalculate = True
             else:
-                ind = np.searchsorted(xp[i], curr_x)
+                ind = np.searchsorted(xp[i], curr_x, side="right")
             # linear interpolation
             if ind == 0:
                 result[i, j] = min_val
-- 
2.43.0


From 3c517edad401d08482cf55fecbcd3242b787b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:18 +0000
Subject: [PATCH 82/85] fix: report models of a blend whose cycles are not
 recorded

---
 improver/developer_tools/metadata_interpreter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/improver/developer_tools/metadata_interpreter.py b/improver/developer_tools/metadata_interpreter.py
index 3fc532c..bb98cf4 100644
--- a/improver/developer_tools/metadata_interpreter.py
+++ b/improver/developer_tools/metadata_interpreter.py
@@ -311,8 +311,14 @@ class MOMetadataInterpreter:
                         self.errors.append(
                             f"Model ID attribute contains unrecognised model code {code}"
                         )
-                    else:
-                        names[-1] += f" (cycle: {cycles[code]})"
+                        continue
+                    if code not in cycles:
+                        self.errors.append(
+                            f"{self.record_run_attr} attribute has no cycle of model "
+                            f"code {code}"
+                        )
+                        continue
+                    names[-1] += f" (cycle: {cycles[code]})"
                 self.model = ", ".join(names)
 
             return
-- 
2.43.0


From cb69acb82a3a4157ce82f14cf5a240e3152abf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:58 +0000
Subject: [PATCH 83/85] fix: generate metadata of one percentile, threshold or
 realization

---
 improver/synthetic_data/generate_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/synthetic_data/generate_metadata.py b/improver/synthetic_data/generate_metadata.py
index 8ddc6cf..1e20b5f 100644
--- a/improver/synthetic_data/generate_metadata.py
+++ b/improver/synthetic_data/generate_metadata.py
@@ -64,7 +64,7 @@ def _create_data_array(
 
     data_shape = []
 
-    if nleading_dimension > 1:
+    if leading_dimension is not None or nleading_dimension > 1:
         data_shape.append(nleading_dimension)
     if nheight_levels is not None:
         data_shape.append(nheight_levels)
-- 
2.43.0


From 0fc8ee674f27e0d5620861e774d5be53d778c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:57 +0000
Subject: [PATCH 84/85] fix: report usage errors of commands given objects

---
 improver/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/cli/__init__.py b/improver/cli/__init__.py
index 22fbccf..4dd2fe7 100644
--- a/improver/cli/__init__.py
+++ b/improver/cli/__init__.py
@@ -97,7 +97,7 @@ class ObjectAsStr(str):
 
     def __hash__(self):
         # make sure our hash doesn't clash with normal string hash
-        return super().__hash__(self) ^ hash(type(self))
+        return super().__hash__() ^ hash(type(self))
 
     @staticmethod
     def obj_to_name(obj, cls=None):
-- 
2.43.0


From f4d34c86c7dd9b229598f5aa3adc9ed23547cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:15 +0000
Subject: [PATCH 85/85] fix: calibrate forecasts that another command produces

---
 improver/calibration/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/__init__.py b/improver/calibration/__init__.py
index d85ee1c..897ad24 100644
--- a/improver/calibration/__init__.py
+++ b/improver/calibration/__init__.py
@@ -15,6 +15,7 @@ from improver.metadata.probabilistic import (
     get_diagnostic_cube_name_from_probability_name,
 )
 from improver.utilities.cube_manipulation import MergeCubes
+from improver.utilities.flatten import flatten
 
 
 def split_forecasts_and_truth(
@@ -128,7 +129,7 @@ def split_forecasts_and_coeffs(
     static_additional_predictors = CubeList()
 
     for cubelist in cubes:
-        for cube in cubelist:
+        for cube in flatten([cubelist]):
             if "emos_coefficient" in cube.name():
                 coefficients.append(cube)
             elif land_sea_mask_name and cube.name() == land_sea_mask_name:
-- 
2.43.0

