"""Properties C41 onwards."""
I, C, H = "inputs", "configurations", "histories"

prop("C41", "Calibration with tree models is the mean over members of what the models say",
     "At every point the calibrated probability of exceeding a threshold is the mean over the members of the probabilities of the trees of the nearest lead time, each held between 0 and 1 and made to decrease with the threshold, interpolated to the thresholds asked in their units, and certain at the lowest value possible. "
     "It depends on each feature by its name, whatever the order in which features are given, with features that lack members used for every member, and is the same whether or not values are binned, with any number of threads, in repeated calls and with either library of tree models. "
     "The wrong number of features, features on other grids or of other members, missing model files and differing thresholds are refused; inputs are unchanged and the result has the coordinates of the forecast with the thresholds first.",
     [I, C, H], "All trees, features (values on the splits of trees included), members, grids and sites, lead times, model and output thresholds and units.",
     "Tests of this need libraries that are not installed and use two models of one shape.",
     ["improver/calibration/rainforest_calibration.py"],
     [("calibration", "improver/calibration/rainforest_calibration.py:ApplyRainForestsCalibration, ApplyRainForestsCalibrationLightGBM, ApplyRainForestsCalibrationTreelite")],
     ["ApplyRainForestsCalibration(config, threads, bin_data)(forecast, features, thresholds, units)"],
     design="Oracle: the trees are walked point by point and combined with lists in double precision. LightGBM and treelite are not installed, so a stand-in for their predictors reads the models' text files; two equally near lead times are both accepted.")

prop("C42", "Values read from tables and curves are those of the entry or line they fall on",
     "A value looked up in a table is that of the cell whose row and column labels are the largest not above the row and column values given (the smallest where all are above), whatever the order in which the table was written and of the dimensions of the cubes, missing where either value is missing, and of the named result with the metadata of the row input. "
     "Each row of several curves with common or separate abscissae is interpolated as if it were on its own: on the line between the neighbouring points, at the ends beyond them, the same values and the same choice at repeated abscissae with the faster library as without it.",
     [I, C], "All tables, label orders, values on and beyond labels, layouts; all curves with plateaus and steps.",
     "Tests compare a few values within a table, and random curves without repeated values, and need libraries that are not installed.",
     ["improver/utilities/extract_from_table.py", "improver/ensemble_copula_coupling"],
     [("tables", "improver/utilities/extract_from_table.py:ExtractValueFromTable"),
      ("curves", "improver/ensemble_copula_coupling/utilities.py:interpolate_multiple_rows_same_x, interpolate_multiple_rows_same_y"),
      ("faster", "improver/ensemble_copula_coupling/numba_utilities.py:fast_interp_same_x, fast_interp_same_y")],
     ["ExtractValueFromTable(row_name, new_name)(column_cube, row_cube, table=table)", "interpolate_multiple_rows_same_y(x, xp, fp), interpolate_multiple_rows_same_x(x, xp, fp)"],
     design="Oracle: a search through the sorted labels and np.interp of each row; pandas and numba are not installed, so a stand-in holds the table and numba's decorator leaves functions as they are (that file's Python semantics are what is checked).")

prop("C43", "Metadata is described as it is, and refused exactly where it departs",
     "The interpreter of metadata accepts a cube exactly if its name, units, coordinates, cell methods, attributes and threshold agree with the standard, and reports every departure otherwise. "
     "What it says of an accepted cube, whether printed or in its fields, is what the cube holds: diagnostic, kind of field, threshold relation, methods with their period, model or models of a blend, post-processing; with warnings for coordinates beyond the usual ones. The cube is unchanged and a second cube is not affected by the first.",
     [I, H], "All kinds of field, diagnostics, models, blends, layouts and departures from the standard, one or two at a time.",
     "Tests use one compliant cube of each kind and single edits of them.",
     ["improver/developer_tools/metadata_interpreter.py"],
     [("interpreter", "improver/developer_tools/metadata_interpreter.py:MOMetadataInterpreter, display_interpretation")],
     ["MOMetadataInterpreter().run(cube)", "display_interpretation(interpreter, verbose)"],
     design="Oracle: the case states which standard-conforming cube is built and which departures are made to it, so what must be reported is known; each departure must be named, and conforming cubes described with the text expected from the case.")

prop("C44", "A cube made to order has exactly the metadata ordered",
     "A generated cube of a variable, percentiles or probabilities, on a grid or at sites, has the shape, dimension order, coordinates, points, bounds, units, types, attributes and name that were asked for or the documented default where nothing was; times and lead times agree with each other and with their bounds. "
     "Contradictory requests (lead times below zero, two reference times, times outside their bounds, lists of the wrong length, unknown grids or kinds, missing mandatory attributes, two leading dimensions) are refused. What was passed in is unchanged, and adding a coordinate to a cube repeats it at each point with the lead time recomputed.",
     [I, C], "All combinations of kind, layout, levels, grid, times, attributes and lists of one or more values.",
     "Tests change one option at a time, with lists of several values.",
     ["improver/synthetic_data"],
     [("metadata", "improver/synthetic_data/generate_metadata.py:generate_metadata"), ("cubes", "improver/synthetic_data/set_up_test_cubes.py:set_up_variable_cube, set_up_spot_variable_cube, set_up_percentile_cube, set_up_probability_cube, add_coordinate"),
      ("options", "improver/synthetic_data/utilities.py:get_leading_dimension, get_height_levels")],
     ["generate_metadata(mandatory_attributes, **options)", "set_up_variable_cube(data, **options) and its relatives", "add_coordinate(cube, points, name)"],
     design="Oracle: every part of the cube computed from the case with lists and datetimes.")
