"""Properties C18-C20: calibration."""
I, C, H = "inputs", "configurations", "histories"

prop("C18", "Reliability calibration counts every matched pair once and maps onto the curve",
     "A reliability table holds, per threshold, bin and point, the number of matched forecast-truth pairs with valid truth, the sum of their forecast probabilities and the number of events; unmatched times have no influence and only points that never have a truth are masked. "
     "Aggregating tables over space or cycles adds them; manipulating a table merges under-populated and non-monotonic bins as documented so that frequencies rise and no count is lost. "
     "Applying tables interpolates each probability linearly on the curve of its threshold (extended as documented, unchanged where no curve exists), stays in [0, 1] and in threshold order, and keeps masks, coordinates and type.",
     [I, C, H], "All histories of forecasts and truths, masks, bins, thresholds, counts, tables (gridded, by site, aggregated) and forecasts.",
     "Tests use one fixed set of two forecasts with one table; masks, bin edges and thresholds are sampled at one or two values.",
     ["improver/calibration/reliability_calibration.py", "improver/calibration/utilities.py"],
     [("construction", "improver/calibration/reliability_calibration.py:ConstructReliabilityCalibrationTables"),
      ("aggregation", "improver/calibration/reliability_calibration.py:AggregateReliabilityCalibrationTables"),
      ("manipulation", "improver/calibration/reliability_calibration.py:ManipulateReliabilityTable"),
      ("application", "improver/calibration/reliability_calibration.py:ApplyReliabilityCalibration")],
     ["ConstructReliabilityCalibrationTables(...)(forecasts, truths)", "ManipulateReliabilityTable(n)(table)", "ApplyReliabilityCalibration()(forecast, tables)"],
     design="Oracle: counting loops over points and times; the documented merging steps on plain lists; linear interpolation in double precision followed by the sort over thresholds.")

prop("C19", "EMOS minimises its score and applies the documented regression",
     "The score minimised for the normal and truncated normal distributions is the mean continuous ranked probability score over all valid points of the training data; the estimated coefficients score no worse than the initial guess, use only matched times and valid (land) points, and are estimated separately per point when asked. "
     "Applying coefficients gives the location a + sum b x (squared weights for member predictors) and the scale sqrt(c^2 + d^2 var), in the forecast's units, and output in the form of the input (members, percentiles or probabilities) drawn from that distribution. "
     "Points outside the land mask keep the raw forecast, and the coordinates and name of the forecast are kept. Forecasts and truths are paired by validity time (and period), skipping forecasts with no data.",
     [I, C, H], "All coefficients, training histories, predictors, masks, units, distributions and forms of forecast.",
     "Tests compare with coefficients stored from one earlier run on a single fixed training set.",
     ["improver/calibration/ensemble_calibration.py", "improver/calibration/utilities.py"],
     [("score", "improver/calibration/ensemble_calibration.py:ContinuousRankedProbabilityScoreMinimisers"),
      ("estimation", "improver/calibration/ensemble_calibration.py:EstimateCoefficientsForEnsembleCalibration"),
      ("application", "improver/calibration/ensemble_calibration.py:CalibratedForecastDistributionParameters, ApplyEMOS")],
     ["EstimateCoefficientsForEnsembleCalibration(...)(forecasts, truths)", "ApplyEMOS()(forecast, coefficients)"],
     design="Oracle: numerical integration of (F - 1(x >= truth))^2; the documented regression in double precision with scipy's distribution functions; metamorphic: data that must not matter are altered and the coefficients must not move.")

prop("C20", "Bias and displacement corrections undo what they measure; inputs are told apart",
     "The forecast bias is the mean over matched valid times of forecast (or ensemble mean) minus truth, masked only where no pair is valid, with the range of cycles recorded; applying it subtracts it (the mean of several biases) from every member within the limits asked for, and a missing bias leaves the forecast as it is with a warning. "
     "Input lists for calibration are separated into forecast, truth, coefficients, mask and predictors by their metadata whatever their order, and anything ambiguous is refused. "
     "The rescaling by vertical displacement is exp(slope x dz) as fitted by least squares to the log ratio of forecast and truth, and multiplies each site by its own factor for the nearest period and cycle hour.",
     [I, C, H], "All histories, masks, members, limits, orders of inputs, sites, periods.",
     "Tests use fixed lists in one order, one time and one set of sites.",
     ["improver/calibration/simple_bias_correction.py", "improver/calibration/__init__.py", "improver/calibration/dz_rescaling.py", "improver/calibration/utilities.py"],
     [("bias", "improver/calibration/simple_bias_correction.py:CalculateForecastBias, ApplyBiasCorrection"),
      ("splitting", "improver/calibration/__init__.py:split_forecasts_and_truth, split_forecasts_and_coeffs, split_forecasts_and_bias_files, validity_time_check"),
      ("rescaling", "improver/calibration/dz_rescaling.py:EstimateDzRescaling, ApplyDzRescaling")],
     ["CalculateForecastBias()(forecasts, truths)", "ApplyBiasCorrection()(forecast, bias)", "split_forecasts_and_truth(cubes, attribute)", "EstimateDzRescaling(...)(...)", "ApplyDzRescaling()(forecast, factors)"],
     design="Oracle: plain means and least squares in double precision; classification predicted from the generated metadata.")
