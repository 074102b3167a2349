I, C, H = "inputs", "configurations", "histories"

prop("C12", "Percentiles are read off the distribution that the input describes",
     "Percentiles resampled from percentiles, generated from threshold probabilities, or taken over any dimensions of a cube are, at every point, "
     "the values of the piecewise-linear distribution given by the input (closed by the diagnostic's bounds in its units, or extended flat if they are skipped), "
     "each next to its own percentile whatever the order they were requested in, for any order and kind of dimensions. "
     "Masked points stay masked and influence nothing; percentiles beyond the probability of the diagnostic existing are masked if asked; values beyond the bounds are refused, or widen the bounds when only a warning is wanted.",
     [I, C], "All percentile and probability cubes (plateaus, masks, dimension orders, spot or grid), requested percentiles, units and options.",
     "Tests use one 3 x 3 field with three ascending percentiles.",
     ["improver/ensemble_copula_coupling/ensemble_copula_coupling.py", "improver/ensemble_copula_coupling/utilities.py", "improver/percentile.py"],
     [("resampling", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:ResamplePercentiles"),
      ("probabilities to percentiles", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:ConvertProbabilitiesToPercentiles"),
      ("collapsing", "improver/percentile.py:PercentileConverter")],
     ["ResamplePercentiles()(cube)", "ConvertProbabilitiesToPercentiles()(cube)", "PercentileConverter('realization')(cube)"],
     design="Oracle: a generated quantile function or CDF per point; the value must lie in the set of quantiles at p (an interval on plateaus). Bounds table repeated in the check for seven diagnostic/unit pairs.")

prop("C13", "Percentiles and probabilities follow the fitted distribution",
     "From location and scale parameters, the percentiles are points at which the (truncated) normal distribution function has the requested value, "
     "and the probabilities at each threshold are that distribution function or its complement according to the threshold relation, in any convertible units. "
     "The truncation limits hold for every point whatever its parameters, masked parameters give masked results, a zero scale gives the location, and a plugin "
     "gives the same answer however often it was used before.",
     [I, C, H], "All parameter fields, distributions, limits, thresholds, percentiles, templates; repeated use.",
     "Tests use one field of parameters and a fresh plugin per call.",
     ["improver/ensemble_copula_coupling/ensemble_copula_coupling.py", "improver/ensemble_copula_coupling/_scipy_continuous_distns.py"],
     [("parameters to percentiles / probabilities", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:ConvertLocationAndScaleParameters")],
     ["ConvertLocationAndScaleParametersToPercentiles()(loc, scale, template)", "ConvertLocationAndScaleParametersToProbabilities()(loc, scale, template)"],
     design="Oracle: the truncated normal distribution function from erfc, evaluated at the returned percentile (inverse relation) or threshold; one or two consecutive calls on one plugin.")

prop("C14", "Ensemble reordering keeps calibrated values in the raw ensemble's order",
     "Reordering gives, at every point and time, exactly the calibrated values, arranged so that members whose raw forecasts are ordered keep that order (ties split at random, "
     "raw members recycled or dropped when the counts differ), with the raw realization numbers and the mask of the calibrated forecast; random ordering "
     "is a permutation, and a seed makes it reproducible. Rebadging realizations as percentiles sorts the members and labels them with the documented plotting positions, "
     "and evenly spaced percentiles become realizations unchanged; anything else is refused.",
     [I, C], "All calibrated and raw ensembles, ties, counts, masks, times, dimension orders, seeds.",
     "Tests use three members on one 3 x 3 grid without ties.",
     ["improver/ensemble_copula_coupling/ensemble_copula_coupling.py", "improver/utilities/indexing_operations.py"],
     [("reordering", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:EnsembleReordering"),
      ("rebadging", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:RebadgeRealizationsAsPercentiles, RebadgePercentilesAsRealizations")],
     ["EnsembleReordering()(calibrated, raw)", "RebadgeRealizationsAsPercentiles()(cube)"],
     design="Oracle: multiset equality and pairwise order of each point's members against the (recycled) raw ensemble; plotting positions recomputed.")
