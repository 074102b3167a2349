I, C, H = "inputs", "configurations", "histories"

prop("C01", "Thresholding gives the exact (fuzzy) exceedance probability",
     "Thresholding a field gives, for every requested threshold and every unmasked point, 1 or 0 "
     "according to the chosen comparison, or with fuzzy bounds the piecewise-linear ramp (0 at the lower "
     "bound, 0.5 at the threshold, 1 at the upper bound; complemented for 'below' comparisons), whatever "
     "the order of the thresholds, the threshold units, the data layout and the mask. Collapsing realizations "
     "or percentiles averages the unmasked members only, masked points stay masked unless a fill value is "
     "given, and the threshold coordinate reports the thresholds in diagnostic units next to the slice that "
     "holds their probabilities. Invalid requests (NaN data, bounds that do not bracket their threshold, "
     "fuzzy factors outside (0, 1) or with a zero threshold, unknown comparisons) are refused with an error.",
     [I, C], "All fields, masks, layouts (realization, percentile, time, spot), threshold lists in any order, "
     "bounds, factors, units, comparison operators and collapse settings.",
     "Unit tests use one small field with one or two thresholds in ascending order; order, units, ties, masks and "
     "collapsing are never combined.",
     ["improver/threshold.py", "improver/metadata/probabilistic.py", "improver/utilities/probability_manipulation.py"],
     [("threshold, fuzzy bounds and collapse", "improver/threshold.py:Threshold")], ["Threshold()(cube)"],
     design="Oracle: the ramp formula in float64 on generated values (multiples of 0.25-1 so that ties with thresholds are frequent), collapse by explicit masked mean; result slices are looked up by the threshold coordinate's value.")


prop("C02", "Vicinity processing is the maximum over a square around each point",
     "The vicinity of a field is, at every unmasked point, the maximum of the unmasked values within the "
     "requested radius (in metres or grid points) in both directions, cut at the domain edge; with a land mask "
     "only points of the same surface type take part. Each leading slice and each radius is processed "
     "independently of the others and of the order they are given in, masked points stay masked and never "
     "contribute, and thresholding with a vicinity equals taking the vicinity of the thresholded field.",
     [I, C], "All fields, masks, land masks, leading dimensions, lists of radii in any order.",
     "Tests sample single bright points on small grids with one radius.",
     ["improver/utilities/spatial.py", "improver/threshold.py"],
     [("sliding maximum", "improver/utilities/spatial.py:OccurrenceWithinVicinity, maximum_within_vicinity"),
      ("vicinity in thresholding", "improver/threshold.py:Threshold._vicinity_processing")],
     ["OccurrenceWithinVicinity()(cube)", "Threshold(vicinity=...)(cube)"],
     design='Oracle: brute-force maximum over the square of each point with mask and land mask; slices matched by radius and dimension names.')


prop("C03", "Between-threshold, inverted and expected values agree with the CDF",
     "For any monotonic set of threshold probabilities, the probability of lying between two thresholds is the "
     "difference of their exceedance probabilities for every requested pair in any order and in any convertible "
     "units, and inverting probabilities gives 1 - p with the opposite threshold relation, so that "
     "inverting twice is the identity. The expected value is the mean of the realizations, or the "
     "mean of the piecewise-linear distribution that the threshold probabilities describe (with the standard ECC bounds).",
     [I, C], "All threshold sets, probability fields, relations (above/below, strict or not), dimension orders, units.",
     "Tests sample one probability cube of three thresholds.",
     ["improver/between_thresholds.py", "improver/expected_value.py", "improver/utilities/probability_manipulation.py"],
     [("difference of slices", "improver/between_thresholds.py"), ("inversion", "improver/utilities/probability_manipulation.py"),
      ("integration of the distribution", "improver/expected_value.py")],
     ["OccurrenceBetweenThresholds()(cube)", "invert_probabilities(cube)", "ExpectedValue()(cube)"],
     design='Oracle: a generated CDF per point, differences and complements of it, exact trapezium integral with the ECC bounds of the diagnostic.')


prop("C04", "Neighbourhood means and sums use exactly the unmasked points in the kernel",
     "Square and circular neighbourhood processing gives, at every point, the (weighted) mean or the sum of the "
     "unmasked, mask-selected values of that field within the radius (square kernels are cut at the domain edge, circular ones extend the edge values), "
     "for every leading slice separately and for the radius that belongs to the slice's lead time (linearly "
     "interpolated). The result lies within the range of the contributing values, a constant field is unchanged, "
     "remasking hides exactly the points that were excluded, and processing with a multi-zone "
     "mask treats each zone independently and blends them by the given weights. Wind directions are averaged as vectors.",
     [I, C], "All fields (including plateaus of the background value), masks, radii, lead times, kernels, zone masks.",
     "Tests put one non-zero point on a uniform grid with a fixed radius.",
     ["improver/nbhood/nbhood.py", "improver/nbhood/use_nbhood.py", "improver/nbhood/__init__.py", "improver/utilities/neighbourhood_tools.py"],
     [("kernels, trimming and masks", "improver/nbhood/nbhood.py:NeighbourhoodProcessing"),
      ("zones", "improver/nbhood/use_nbhood.py")],
     ["NeighbourhoodProcessing()(cube)", "MetaNeighbourhood()(cube)", "ApplyNeighbourhoodProcessingWithAMask()(cube, mask)"],
     design='Oracle: direct double loop over the kernel; fields are mostly plateaus of 0 or 1 with a few other values, which drives the trimming shortcut of the code; zones by per-zone direct sums and weights; directions by complex means.')


prop("C05", "Neighbourhood percentiles are the percentiles of the circular kernel",
     "Percentiles generated from a circular neighbourhood equal, at every point, the linearly interpolated "
     "percentiles of all values inside the circle (domain edges extended by the mean of the edge rows), "
     "next to the percentile coordinate value they belong to. They are non-decreasing in the percentile, "
     "do not depend on the order of the requested percentiles, and each leading slice is processed independently.",
     [I, C], "All fields, radii, percentile lists in any order including 0 and 100.",
     "Tests use one zero in a field of ones.",
     ["improver/nbhood/nbhood.py", "improver/utilities/pad_spatial.py", "improver/utilities/neighbourhood_tools.py"],
     [("percentiles over a padded rolling window", "improver/nbhood/nbhood.py:GeneratePercentilesFromANeighbourhood")],
     ["GeneratePercentilesFromANeighbourhood()(cube)"],
     design='Oracle: explicit list of the values in the circle over the padded field and linear interpolation of order statistics.')


prop("C06", "Box sums and rolling windows equal direct evaluation for any array",
     "The box sum of an array equals, for every valid window position, the direct sum over the window (or the "
     "cumulative table when asked for), and padded sums have the shape of the input. A rolling window view "
     "holds, at every position, exactly the input values inside the window, for any number of leading dimensions, memory "
     "layout, window shape and padding, and the input array is not modified.",
     [I], "All array shapes, dtypes, memory layouts, window sizes (odd, even, rectangular) and padding modes.",
     "Tests use a 5 x 5 array and a 3 x 3 window.",
     ["improver/utilities/neighbourhood_tools.py"],
     [("summed-area table", "improver/utilities/neighbourhood_tools.py:boxsum"),
      ("strided view", "improver/utilities/neighbourhood_tools.py:rolling_window")],
     ["boxsum", "pad_boxsum", "rolling_window", "pad_and_roll"],
     design="Oracle: index-mapped padding and shifted sums; no cubes. Small integer types and tiled arrays make the summed-area table exceed the input type's range.")


prop("C07", "Recursive filtering, its coefficients and halos match their definitions",
     "The recursive filter equals forward and backward exponential smoothing along x then y of the field with a "
     "symmetric halo, using the coefficient between each pair of points, slice by slice; "
     "it keeps a constant field and stays within the range of the input. Orographic smoothing "
     "coefficients lie between the configured limits, decrease with steeper gradients (or increase when inverted) and are zero at mask edges. Adding a halo extends the "
     "coordinates evenly and pads with the requested values, and removing it restores the original field.",
     [I, C], "All fields, masks, coefficient fields in [0, 0.5], edge widths, iterations, orographies.",
     "Tests use a single peak on a 5 x 5 grid with constant coefficients.",
     ["improver/nbhood/recursive_filter.py", "improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py",
      "improver/utilities/pad_spatial.py"],
     [("recursion", "improver/nbhood/recursive_filter.py:RecursiveFilter"),
      ("coefficients", "improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py"),
      ("halo", "improver/utilities/pad_spatial.py")],
     ["RecursiveFilter()(cube, coefficients)", "OrographicSmoothingCoefficients()(orography)", "pad_cube_with_halo"],
     design='Oracle: scalar forward/backward recursion with a mirrored halo; gradients by differences and linear rescaling; halo coordinates by spacing.')

