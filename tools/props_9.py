"""Properties C35 onwards."""
I, C, H = "inputs", "configurations", "histories"

prop("C35", "Fields between validity times, and time-lagged ensembles, follow their inputs",
     "Between two validity times, fields are interpolated linearly at the times asked, given as a list or an interval (directions round the circle, radiation in proportion to the sun's elevation and zero at night), and accumulations of the shorter periods add up to the whole, maxima and minima keep to those given; masks, layout, times, periods and metadata are those of the new times. "
     "A time-lagged ensemble holds every member of every cycle once, renumbered only where numbers repeat, with the latest reference time and lead times to match. "
     "Inputs and the times configured are unchanged, so a later call is not affected by earlier ones; times outside the range, out of order, of different periods or unequal validity times are refused.",
     [I, C, H], "All fields, masks, kinds of field, layouts, pairs of times, times asked, sequences of calls, cycles and member numbers.",
     "Tests interpolate constants over a few hours once per plugin.",
     ["improver/utilities/temporal_interpolation.py", "improver/utilities/time_lagging.py", "improver/metadata/forecast_times.py"],
     [("interpolation", "improver/utilities/temporal_interpolation.py:TemporalInterpolation"),
      ("time lagging", "improver/utilities/time_lagging.py:GenerateTimeLaggedEnsemble"),
      ("reference times", "improver/metadata/forecast_times.py:rebadge_forecasts_as_latest_cycle")],
     ["TemporalInterpolation(...)(cube at t0, cube at t1)", "GenerateTimeLaggedEnsemble()(cubes)"],
     design="Oracle: linear interpolation in double precision, circular interpolation by the shorter arc, an independent solar elevation, sums over the periods, member sets.")

prop("C36", "Standardised cubes meet the metadata standard and keep their content",
     "A standardised cube has the standard's types and units for data, coordinates and bounds, the name, units, attributes and coordinate values asked, scalar coordinates for dimensions of length one (but for realizations), no redundant cell methods, missing data where its status flag says so, and otherwise the values, masks and coordinates it came with. "
     "The check of mandatory standards accepts a cube exactly if its data and coordinates have the standard types and time units, and reports each that has not. "
     "Attributes are copied, changed, updated with the time they were made, or kept where common to all inputs, exactly as asked and without altering other cubes or dictionaries given.",
     [I, C, H], "All cubes, data types, time units, flags, requested changes, sets of attributes and call sequences.",
     "Tests standardise one cube with one change each.",
     ["improver/standardise.py", "improver/metadata/check_datatypes.py", "improver/metadata/amend.py", "improver/metadata/utilities.py", "improver/utilities/copy_attributes.py"],
     [("standardisation", "improver/standardise.py:StandardiseMetadata"),
      ("standards", "improver/metadata/check_datatypes.py:check_mandatory_standards"),
      ("attributes", "improver/metadata/amend.py:amend_attributes; improver/metadata/utilities.py:generate_mandatory_attributes, create_new_diagnostic_cube; improver/utilities/copy_attributes.py:CopyAttributes")],
     ["StandardiseMetadata(...)(cube)", "check_mandatory_standards(cube)", "amend_attributes(cube, dict); CopyAttributes(names)(cubes)"],
     design="Oracle: a table of the types and units of the standard written from the documentation; dictionary models of the attributes.")

prop("C37", "Cubes are compared, reordered, selected and masked without loss",
     "Cubes count as being on the same grid, at the same times, in the same coordinates or spatially unique exactly if all relevant coordinates agree. "
     "Restoring a result's dimensions to those of its template keeps every value at its coordinates, promotes scalars back to dimensions and leaves listed new dimensions where they are; lost or unlisted dimensions are refused. "
     "Constraints select exactly the values and closed ranges asked (of any sign and units), splitting by name partitions the cubes, masks hide exactly the points of the mask or its inverse, and nested inputs are flattened in order, all with inputs unchanged.",
     [I, C, H], "All layouts, grids, times, dimension permutations, constraints, masks and nestings.",
     "Tests use one pair of cubes for each outcome.",
     ["improver/utilities/cube_checker.py", "improver/utilities/cube_constraints.py", "improver/utilities/cube_extraction.py", "improver/utilities/mask.py", "improver/utilities/common_input_handle.py", "improver/utilities/flatten.py", "improver/metadata/utilities.py"],
     [("comparison and dimensions", "improver/utilities/cube_checker.py:check_cube_coordinates, spatial_coords_match, time_coords_match, assert_spatial_coords_match"),
      ("constraints", "improver/utilities/cube_constraints.py, improver/utilities/cube_extraction.py"),
      ("masks and inputs", "improver/utilities/mask.py:apply_mask; improver/utilities/common_input_handle.py:as_cubelist")],
     ["check_cube_coordinates(cube, new_cube)", "apply_mask(cubes, mask_name, invert); as_cubelist(...)"],
     design="Oracle: values looked up by coordinates before and after, comparison of coordinate tuples, list models.")

prop("C38", "Forecasts are held to references, accumulated over periods and given texture",
     "A forecast enforced to a reference is the forecast limited by the linear function(s) of the reference asked, in its own units, and warns if changed by more than a stated amount; parts normalised to a whole keep their ratios, sum to the whole and stay zero where all are; contradictory bounds, operators, units, grids and orders of dimensions are refused. "
     "A rate integrated over its periods is the rate times each period in seconds; the nearest time within the limit is selected; conversions between kinds of time agree. "
     "The texture of a binary field at a threshold is the fraction of members whose neighbourhood ratio of actual to possible edges exceeds the limit; inputs are unchanged in all.",
     [I, C, H], "All fields, masks, layouts, units, bounds, periods, times, thresholds and radii.",
     "Tests use uniform fields with one bound, one period and one radius.",
     ["improver/utilities/forecast_reference_enforcement.py", "improver/utilities/temporal.py", "improver/utilities/textural.py"],
     [("references", "improver/utilities/forecast_reference_enforcement.py:EnforceConsistentForecasts, normalise_to_reference"),
      ("times", "improver/utilities/temporal.py:integrate_time, extract_nearest_time_point, relabel_to_period"),
      ("texture", "improver/utilities/textural.py:FieldTexture")],
     ["EnforceConsistentForecasts(...)(forecast, reference); normalise_to_reference(cubes, reference)", "integrate_time(cube); FieldTexture(...)(cube)"],
     design="Oracle: clipping, shares, products with periods and edge counts by loops in double precision.")

prop("C39", "Files hold the cubes saved to them, and are complete or untouched",
     "Cubes saved to a file and loaded again, one or many, by name or constraint, from one or several files, are the same cubes: values, masks, types, coordinates, bounds, attributes and cell methods, with only the standard order of dimensions, variable names kept for thresholds alone, and values quantised to the precision asked. "
     "Whatever step of writing fails, and at every moment before it ends, the file is the one that was there before (or none), and a later attempt succeeds and leaves nothing else behind. "
     "Cubes with types, time units or units outside the standard, and wrong compression levels, are refused without touching any file.",
     [I, "crash_points", H], "All cubes, masks, types, lists of cubes, compressions, splits into files, and failing steps of the write.",
     "Tests save one or two cubes and never fail a write.",
     ["improver/utilities/save.py", "improver/utilities/load.py", "improver/utilities/cube_manipulation.py"],
     [("saving", "improver/utilities/save.py:save_netcdf"), ("loading", "improver/utilities/load.py:load_cube, load_cubelist"),
      ("merging", "improver/utilities/cube_manipulation.py:MergeCubes, strip_var_names")],
     ["save_netcdf(cubes, filename, ...)", "load_cube(filename, constraint); load_cubelist(filenames)"],
     design="Oracle: round trip against the cubes saved, with real netCDF files in a scratch directory; faults are injected into every netCDF operation of the write and the target file is read before each of them. The stand-in for iris writes through the netCDF4 library.")

prop("C40", "The command line computes what its plugins compute with the options given",
     "Every command gives, for any inputs and any values of its options given as text, exactly the result of its plugin called with those values, and with the documented defaults for the options not given; wrong combinations of options, unknown options and missing inputs are refused and then nothing is written. "
     "It makes no difference whether an input is a file, an object or a command in brackets, nor how deeply commands are nested: chains give what the steps give one by one, and outputs kept on the way are the results of those steps. "
     "Brackets are matched or refused, a dry run computes and writes nothing, an output option saves the complete result and returns nothing unless asked to pass it on, and texts are converted to lists, numbers, dates, paths and cubes in the order asked.",
     [I, C, H], "All inputs, subsets of options and their values, nestings, and ways of giving inputs of about 90 commands (blending, thresholding, percentiles, neighbourhoods, regridding, ancillaries, physics, sites, calibration, symbols, nowcasts...).",
     "Tests of the commands need reference files that are not available, so no command is run by the tests at all.",
     ["improver/cli"],
     [("machinery", "improver/cli/__init__.py:execute_command, unbracket, with_output, main, input converters"),
      ("commands", "improver/cli/*.py:process")],
     ["improver COMMAND ARGUMENTS... through improver.cli.main", "improver.cli.execute_command, unbracket, converters"],
     design="Oracle: differential: the real command line (clize) against the plugin called directly with the values and documented defaults of a table (vp/commands.py), which holds independent definitions for the commands with logic of their own (clip, land and sea neighbourhoods, night mask...). Plugins themselves are decided by the other properties.")
