"""Properties C15-C17: blending."""
I, C, H = "inputs", "configurations", "histories"

prop("C15", "Blending weights follow their definition and sum to one",
     "Linear, exponential and triangular weights depend only on each slice's place along the blending coordinate (in any convertible units), and dictionary weights are interpolated in "
     "the weighting coordinate and held constant beyond its ends; all are normalised over the slices and belong to the right slice whatever the order of slices or dimensions. "
     "Weights adjusted for masks are zero where data are masked, fade in linearly within the fuzzy length of masked points, keep the proportions of the unaffected slices, and still sum to one wherever one slice is unaffected; "
     "negative weights or weights that sum to zero are refused.",
     [I, C], "All blending cubes, parameters, units, dictionaries, masks and fuzzy lengths.",
     "Tests use a few fixed cubes in ascending order with one set of parameters.",
     ["improver/blending/weights.py", "improver/blending/spatial_weights.py"],
     [("default weights", "improver/blending/weights.py:ChooseDefaultWeightsLinear, ChooseDefaultWeightsNonLinear, ChooseDefaultWeightsTriangular"),
      ("dictionary weights", "improver/blending/weights.py:ChooseWeightsLinear"),
      ("spatial weights", "improver/blending/spatial_weights.py:SpatiallyVaryingWeightsFromMask")],
     ["ChooseWeightsLinear(coord, config)(cubes)", "SpatiallyVaryingWeightsFromMask(coord, fuzzy_length)(cube, weights)"],
     design="Oracle: the formulae in double precision, looked up by coordinate value; spatial weights from a brute-force distance to the nearest masked point.")

prop("C16", "Blending is the weighted mean or mixture of the slices",
     "Blending fields gives, at every point, the mean of the unmasked slices weighted by the (not necessarily normalised) weights matched by coordinate, angles being averaged as vectors; "
     "blending percentiles gives the quantiles of the weighted mixture of the inputs' distributions, so they are in order and within the range of the inputs that have weight. "
     "Slices without weight and masked points have no influence, points without data are masked, dimensions other than the blended one keep their order, and different validity times are refused unless time itself is blended.",
     [I, C], "All cubes, dimension orders, slice orders, weights of any dimensions, masks, plateaus.",
     "Tests use small constant fields with normalised positive weights.",
     ["improver/blending/weighted_blend.py", "improver/blending/blend_across_adjacent_points.py", "improver/utilities/cube_manipulation.py"],
     [("weighted mean and percentiles", "improver/blending/weighted_blend.py:WeightedBlendAcrossWholeDimension"),
      ("mixture of percentiles", "improver/blending/weighted_blend.py:PercentileBlendingAggregator"),
      ("triangular blending", "improver/blending/blend_across_adjacent_points.py:TriangularWeightedBlendAcrossAdjacentPoints")],
     ["WeightedBlendAcrossWholeDimension(coord)(cube, weights)", "TriangularWeightedBlendAcrossAdjacentPoints(...)(cube)"],
     design="Oracle: weighted means in double precision; for percentiles the left and right limits of the mixture distribution function at the returned value must enclose the percentile.")

prop("C17", "Blending models or cycles end to end: data, times and provenance",
     "Blending a list of forecasts gives the weighted mean with each input's own weight whatever the order of the list, at the requested cycle: reference time and blend time equal the cycle time, the forecast period is measured from it, "
     "bounds and validity time are kept, and no blending coordinate is left. "
     "The attributes name exactly the models, runs and weights that contributed (inputs with zero weight do not), attribute changes are applied, inputs are not modified, and a plugin may be used again.",
     [I, C, H], "All lists of forecasts, orders, weights, masks, records of runs, cycle times; repeated use.",
     "Tests blend two or three fixed cubes in one order and check one piece of metadata at a time.",
     ["improver/blending/calculate_weights_and_blend.py", "improver/blending/utilities.py", "improver/blending/weighted_blend.py", "improver/metadata/forecast_times.py", "improver/utilities/cube_manipulation.py"],
     [("weights and blend", "improver/blending/calculate_weights_and_blend.py:WeightAndBlend"),
      ("merging", "improver/blending/weighted_blend.py:MergeCubesForWeightedBlending"),
      ("metadata and records", "improver/blending/utilities.py")],
     ["WeightAndBlend(...)(cubelist, cycletime=..., ...)"],
     design="Oracle: weights and means recomputed from the configuration per input; metadata predicted from the generated models, cycles and records.")
