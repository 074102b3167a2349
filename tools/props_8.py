"""Properties C31 onwards."""
I, C, H = "inputs", "configurations", "histories"

prop("C31", "Precipitation is enhanced over hills; lapse rates follow the orography",
     "The orographic enhancement at each point is the moisture forced up the slope there by the humid wind blowing over it (nothing on flat ground, in calm or dry air, or down slopes steeper than it resolves) plus the part advected from upstream, capped as documented, on the orography's grid whatever the order, direction and units of the inputs. "
     "A gridded lapse rate is the least-squares slope of temperature against height over neighbouring land points at similar heights, limited to its bounds, and the default over sea, on flat ground and where there is too little data. "
     "Applying lapse rates moves temperatures between orographies by rate times height difference up to the inversion limit and by the environmental rate beyond it, leaving inputs and coordinates unchanged.",
     [I, C, H], "All orographies, winds, humidities, temperatures, land masks, layouts, resolutions and units.",
     "Tests use one small hill and one 5 x 5 field.",
     ["improver/orographic_enhancement.py", "improver/lapse_rate.py"],
     [("enhancement", "improver/orographic_enhancement.py:OrographicEnhancement"),
      ("lapse rates", "improver/lapse_rate.py:LapseRate, ApplyGriddedLapseRate")],
     ["OrographicEnhancement()(temperature, humidity, pressure, u, v, orography)", "LapseRate(...)(temperature, orography, mask); ApplyGriddedLapseRate()(t, rate, source, destination)"],
     design="Oracle: point-by-point loops in double precision of the documented formulae; points near a discontinuity (thresholds of wind, gradient, height difference) are skipped.")

prop("C32", "Topographic bands, their weights and land masks describe the orography",
     "Every valid (land, unless no mask is given) point lies in exactly one band of contiguous orography bands, and none does beyond them; masked points are masked. "
     "Zone weights of a point share one between the bands adjacent to its height: all to its own band at the midpoint and in the outer halves of the end bands, linearly to the next band in between, never negative and summing to one. "
     "A land mask is one exactly where the land fraction is at least a half, as integers with the given attributes.",
     [I, C], "All orographies, bands, units, land masks and land fractions.",
     "Tests use one list of bands with few heights.",
     ["improver/generate_ancillaries"],
     [("bands and masks", "improver/generate_ancillaries/generate_ancillary.py:GenerateOrographyBandAncils, CorrectLandSeaMask"),
      ("weights", "improver/generate_ancillaries/generate_topographic_zone_weights.py:GenerateTopographicZoneWeights")],
     ["GenerateOrographyBandAncils()(orography, thresholds, landmask)", "GenerateTopographicZoneWeights()(orography, thresholds, landmask); CorrectLandSeaMask()(fraction)"],
     design="Oracle: comparison with the bounds of each band and linear interpolation in double precision; edges and midpoints are generated on purpose.")

prop("C33", "Lightning probabilities follow the instability, precipitation and flashes",
     "From CAPE and rain rates the probability is one exactly where both exceed the thresholds for the latitude of the point; the regression from CAPE, lifted index, precipitable water, inhibition and precipitation has the documented value, capped at 95% and zero when dry, whatever the order of the inputs. "
     "A lightning nowcast modifies the first-guess probability of the nearest time within its limit by the observed flash rate, then by the probabilities of precipitation and (if given) of ice at the same time, with limits that depend on lead time, in any units; inputs of other times, periods, grids or missing thresholds are refused. "
     "Inputs and metadata are kept.",
     [I, C], "All fields, latitudes, lead times, units, thresholds, orders of the inputs.",
     "Tests use 3 x 3 fields with one non-uniform point.",
     ["improver/lightning.py", "improver/nowcasting/lightning.py"],
     [("CAPE and precipitation", "improver/lightning.py:LightningFromCapePrecip, LightningMultivariateProbability_USAF2024"),
      ("nowcast", "improver/nowcasting/lightning.py:NowcastLightning")],
     ["LightningFromCapePrecip(...)(cubes); LightningMultivariateProbability_USAF2024()(cubes)", "NowcastLightning(radius)(cubes)"],
     design="Oracle: the documented thresholds, regression and rescaling in double precision, point by point; values within rounding of a threshold are skipped. Known findings: the nowcast discards the result of its neighbourhood processing (existing tests expect unspread values, so it is recorded rather than repaired), and fails for several lead times when the radius depends on the lead time.")

prop("C34", "Combining cubes is the stated arithmetic, with coordinates that cover them all",
     "The sum, difference, product, maximum, minimum, mean or masked sum of cubes has that value at every point, masked where any input is (masked sum: where all are), in any layout and with thresholds or realizations of the first broadcast to the others; incomplete ensembles are reduced to the members all times have and refused when too few remain. "
     "Coordinates that differ are expanded to cover all inputs (the maximum in a window keeps the period in its cell methods), names and cell methods are updated as asked, inputs are unchanged and a second call does not depend on the first; cubes on other grids, single cubes, mixed bounds, widened types and unknown operations are refused.",
     [I, C, H], "All cubes, masks, types, times, periods, layouts, operations and call sequences.",
     "Tests combine a few 4 x 4 cubes of constants.",
     ["improver/cube_combiner.py", "improver/metadata/amend.py", "improver/utilities/cube_manipulation.py"],
     [("combination", "improver/cube_combiner.py:Combine, CubeCombiner, masked_add, MaxInTimeWindow"),
      ("names", "improver/metadata/amend.py:update_diagnostic_name"),
      ("coordinates", "improver/utilities/cube_manipulation.py:expand_bounds, filter_realizations")],
     ["Combine(operation, ...)(*cubes); MaxInTimeWindow(...)(cubes)"],
     design="Oracle: numpy reductions over the stacked arrays, minimum and maximum of bounds, members by set intersection.")
