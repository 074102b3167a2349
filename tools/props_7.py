"""Properties C24 onwards."""
I, C, H = "inputs", "configurations", "histories"

prop("C24", "Nowcasts move fields along the motion that was estimated for them",
     "Advection gives each grid point the bilinear value found upstream by velocity times lead time, masks points whose source is outside the domain or invalid, and stamps validity time, reference time and lead time; extrapolation with orographic enhancement subtracts, advects and adds back the enhancement of the right time. "
     "Optical flow is the box-wise least squares motion of the smoothed fields, smoothed iteratively and scaled to m s-1, and zero without rain. "
     "Accumulations are the time integrals of the rates over each requested period, the same for rates in any order and units; holes in radar fields are filled only where enough neighbours are valid.",
     [I, C, H], "All fields, velocities, lead times, rate series, periods and masks.",
     "Tests use small fields with one velocity and one series.",
     ["improver/nowcasting"],
     [("advection and extrapolation", "improver/nowcasting/forecasting.py:AdvectField, CreateExtrapolationForecast; improver/nowcasting/pysteps_advection.py"),
      ("optical flow", "improver/nowcasting/optical_flow.py:OpticalFlow, generate_optical_flow_components"),
      ("accumulation", "improver/nowcasting/accumulation.py:Accumulation"),
      ("radar", "improver/nowcasting/utilities.py:FillRadarHoles, ExtendRadarMask")],
     ["AdvectField(u, v)(cube, lead); CreateExtrapolationForecast(...).extrapolate(minutes)", "OpticalFlow()(first, second); Accumulation(...)(cubes)"],
     design="Oracle: backward bilinear advection, trapezium sums and window statistics in numpy; points within rounding of the domain edge are skipped; optical flow is compared with a double precision reference on well-conditioned patterns.")

prop("C25", "Each point gets the category its decision tree leads to",
     "At every point the tree is followed from its first node with the probabilities (or deterministic values) at that point, combined by their operators and conditions, thresholds converted and scaled to the period; optional nodes without data are bypassed, other missing inputs, differing times or periods are refused, points with masked inputs on their path are masked. "
     "Leaves with a night code use it where the sun is below the horizon at the middle of the period; checking a tree finds every mistake and lists the inputs of a good tree. "
     "The category of a period is the most frequent (the larger of equals, codes of a group taken together where none reaches 30%), in day codes, with times spanning the inputs.",
     [I, C, H], "All trees, diagnostics, masks, layouts, periods, positions of the sun and category series.",
     "Tests use one tree with single-point data.",
     ["improver/categorical", "improver/utilities/solar.py"],
     [("decision tree", "improver/categorical/decision_tree.py:ApplyDecisionTree"),
      ("checking, day and night", "improver/categorical/utilities.py:check_tree, update_daynight; improver/utilities/solar.py:DayNightMask"),
      ("modal category", "improver/categorical/modal_code.py:ModalCategory")],
     ["ApplyDecisionTree(tree, target_period=...)(cubes); check_tree(tree)", "DayNightMask()(cube); ModalCategory(tree)(cubes)"],
     design="Oracle: a walk of the tree at each point in double precision (ties of computed expressions skipped), the solar elevation formula re-implemented, a counter per point; each of 24 kinds of mistake is injected into valid trees.")

prop("C26", "Sun, clear-sky radiation, UV index and feels-like temperature are as defined",
     "For any moment and position the declination, solar time, hour angle, elevation and terminator satisfy the solar geometry, arguments out of range are refused; solar time and clear-sky radiation fields have the value of the formula (the trapezium integral over the period, for altitude and turbidity given or defaulted) at each point of either kind of grid, on the target's coordinates with the requested time. A day-night mask is 1 exactly where the sun is above the horizon at each time (the middle of its period, if it has one), on grids of either kind and at sites. "
     "The UV index is the scaled non-negative flux; the feels-like temperature is the wind chill below 10 C, the apparent temperature above 20 C and their blend between, in the units of the temperature input whatever the units of the others, masked where an input is, with inputs unchanged.",
     [I, C], "All dates, times, positions, grids, altitudes, turbidities, periods, steps; all temperatures, winds, humidities, pressures, units and masks.",
     "Tests check a few dates and points.",
     ["improver/utilities/solar.py", "improver/generate_ancillaries/generate_derived_solar_fields.py", "improver/uv_index.py", "improver/feels_like_temperature.py"],
     [("solar geometry", "improver/utilities/solar.py:calc_solar_elevation, calc_solar_time, daynight_terminator"),
      ("day and night", "improver/utilities/solar.py:DayNightMask"),
      ("derived fields", "improver/generate_ancillaries/generate_derived_solar_fields.py:GenerateSolarTime, GenerateClearskySolarRadiation"),
      ("UV and feels-like", "improver/uv_index.py:calculate_uv_index; improver/feels_like_temperature.py:calculate_feels_like_temperature")],
     ["calc_solar_elevation(lat, lon, day, hour); GenerateClearskySolarRadiation()(target, time, period)", "calculate_feels_like_temperature(t, wind, rh, p); calculate_uv_index(flux)"],
     design="Oracle: the published formulae in double precision with the Goff-Gratch vapour pressure; temperatures of exactly 10 and 20 C avoided.")

prop("C27", "Moist thermodynamics: vapour pressure, parcels, wet-bulb and cloud levels",
     "At every point the saturation vapour pressure follows the Goff-Gratch formula with its pressure correction, dry ascent and its inverse follow the adiabat, condensation conserves moist enthalpy and ends exactly at saturation while unsaturated air is unchanged, and the wet-bulb temperature satisfies the enthalpy balance, never above the air temperature, on each vertical level, whatever the units, order of the inputs and layout, masked where any input is. "
     "Integration sums the positive values by the trapezium rule from the requested end within the limits, level by level with its bounds. "
     "The condensation level is where the lifted parcel saturates; the cloud top is the parcel temperature at its last buoyant level, masked when the cloud is shallower than 4 K.",
     [I, C], "All temperatures, pressures, humidities, levels, layouts, units, masks and integration limits.",
     "Tests compare a few points with stored values.",
     ["improver/psychrometric_calculations", "improver/generate_ancillaries/generate_svp_table.py", "improver/utilities/mathematical_operations.py"],
     [("basics", "improver/psychrometric_calculations/psychrometric_calculations.py:saturated_humidity, adjust_for_latent_heat, HumidityMixingRatio; improver/generate_ancillaries/generate_svp_table.py:SaturatedVapourPressureTable"),
      ("wet-bulb", "improver/psychrometric_calculations/wet_bulb_temperature.py:WetBulbTemperature, WetBulbTemperatureIntegral; improver/utilities/mathematical_operations.py:Integration"),
      ("cloud", "improver/psychrometric_calculations/cloud_condensation_level.py:CloudCondensationLevel; improver/psychrometric_calculations/cloud_top_temperature.py:CloudTopTemperature")],
     ["WetBulbTemperature()(t, rh, p); Integration('height', ...)(cube)", "adjust_for_latent_heat(t, q, p); CloudCondensationLevel()(...); CloudTopTemperature()(...)"],
     design="Oracle: double precision bisection of the balance equations (tolerance 0.03 K, 300 Pa); buoyancy and depth within rounding of a tie are skipped.")

prop("C28", "Levels of a value, phase changes and hail are found in every column",
     "The level extracted is the first at which the profile crosses the value going up from the surface, interpolated linearly, the nearest end when it does not cross, with missing values filled from their neighbours, for each realization or time. "
     "The phase change level is where the wet-bulb integral reaches the threshold, above the orography; the top when melted everywhere, extrapolated below sea level so that the integral of the fitted profile makes up the difference (not below -2000 m), and over land filled from the surroundings, never above the ground, or masked. "
     "Hail sizes follow the nomogram and its reduction by the freezing level; phases at the surface compare altitude with the right percentile of the level, and the three significant phase masks partition the points.",
     [I, C], "All profiles, levels, orographies, land masks, thresholds, layouts, units, missing values.",
     "Tests use single columns or one small grid.",
     ["improver/psychrometric_calculations", "improver/utilities/cube_extraction.py", "improver/utilities/interpolation.py"],
     [("levels", "improver/utilities/cube_extraction.py:ExtractLevel; improver/psychrometric_calculations/wet_bulb_temperature.py:MetaWetBulbFreezingLevel"),
      ("phase change", "improver/psychrometric_calculations/psychrometric_calculations.py:PhaseChangeLevel; improver/utilities/interpolation.py:interpolate_missing_data"),
      ("hail", "improver/psychrometric_calculations/hail_size.py:HailSize"),
      ("phases", "improver/psychrometric_calculations/precip_phase_probability.py:PrecipPhaseProbability; improver/psychrometric_calculations/significant_phase_mask.py:SignificantPhaseMask")],
     ["ExtractLevel(correlation, value)(cube); PhaseChangeLevel(phase)(wbt, integral, orography, mask)", "HailSize()(...); PrecipPhaseProbability()(level, orography)"],
     design="stratify is replaced by a stand-in (first crossing per column), with which the repository's own tests pass. Oracle: column by column interpolation; the extrapolated level is checked by its integral; horizontally filled points by bounds. Profiles fall along the axis, as the code requires.")

prop("C29", "Precipitation types, showers and visibility are consistent point by point",
     "Rain, snow and sleet probabilities sum to one at every point, rain and snow parts sum to the precipitation, the snow fraction of a dry point is that of a nearest wet point, and the convective ratio is masked where there is no precipitation; inputs that contradict one another (both rain and snow certain, other grids, times, units, names or thresholds) are refused. "
     "Freezing rain is the mean over the realizations all inputs share of (rain + sleet) times the probability of freezing, per threshold; hail fractions and shower probabilities follow their conditions at every point; low cloud raises the probability of poor visibility by the scaled maximum at each threshold, whichever way it is expressed. "
     "The output has the inputs' layout, times and attributes, units notwithstanding.",
     [I, C], "All rates, amounts, probabilities, realization sets, thresholds, units, layouts, masks and input orders.",
     "Tests use one small grid with uniform fields.",
     ["improver/precipitation_type", "improver/visibility"],
     [("sleet and convection", "improver/precipitation_type/calculate_sleet_prob.py:calculate_sleet_probability; improver/precipitation_type/convection.py:ConvectionRatioFromComponents"),
      ("freezing rain", "improver/precipitation_type/freezing_rain.py:FreezingRain"),
      ("snow", "improver/precipitation_type/snow_fraction.py:SnowFraction; improver/precipitation_type/snow_splitter.py:SnowSplitter"),
      ("hail and showers", "improver/precipitation_type/hail_fraction.py:HailFraction; improver/precipitation_type/shower_condition_probability.py:ShowerConditionProbability"),
      ("visibility", "improver/visibility/visibility_combine_cloud_base.py:VisibilityCombineCloudBase")],
     ["FreezingRain()(rain, sleet, temperature); SnowFraction()(cubes)", "VisibilityCombineCloudBase(initial, first)(visibility, cloud_base)"],
     design="Oracle: numpy formulae per point; a dry point's snow fraction may be that of any nearest wet point; values on thresholds avoided. Single-member inputs are not given to the shower plugin, which loses a length-one realization when thresholding.")

prop("C30", "Winds are resolved, averaged and downscaled as physics prescribes",
     "Resolved components reproduce the speed and direction relative to the grid's own north at every point, for every realization and time, refusing other grids or times. "
     "The mean direction over members is that of the resultant unit vector, with its reliability measure, and a nearby or first-member direction where the members cancel; the gust is the largest of the gust and speed percentiles that belong together, and the updraught follows CAPE and precipitation. "
     "Downscaled winds follow the logarithmic profile with roughness and height corrections only on land with valid ancillaries, exactly unchanged elsewhere, never negative, the same when called again.",
     [I, H], "All speeds, directions, grids, member numbers, layouts, units, profiles, ancillaries and missing values.",
     "Tests check a few points on one grid with stored values.",
     ["improver/wind_calculations"],
     [("components", "improver/wind_calculations/wind_components.py:ResolveWindComponents"),
      ("direction", "improver/wind_calculations/wind_direction.py:WindDirection"),
      ("gust", "improver/wind_calculations/wind_gust_diagnostic.py:WindGustDiagnostic"),
      ("updraught", "improver/wind_calculations/vertical_updraught.py:VerticalUpdraught"),
      ("downscaling", "improver/wind_calculations/wind_downscaling.py:RoughnessCorrection, FrictionVelocity, RoughnessCorrectionUtilities")],
     ["ResolveWindComponents()(speed, direction); WindDirection(method)(cube)", "RoughnessCorrection(...)(wind)"],
     design="Oracle: double precision formulae per point; the grid's north through the cartopy stand-in; ties and values at decision edges avoided or accepted either way. Reference: the published log profile and height corrections, written independently.")
