I, C, H = "inputs", "configurations", "histories"

prop("C08", "Grid spacings, differences, gradients and grid transforms are exact",
     "The spacing of a regular grid is its coordinate step in the requested units (irregular or ambiguous grids are refused), "
     "the distances between grid squares and cell areas follow from the coordinates (with the Earth's curvature on latitude-longitude grids), and differences and gradients "
     "along an axis are those of neighbouring points, wrapping around exactly where the longitude coordinate does, "
     "whatever the order of dimensions. Conversions between distances and grid cells round-trip, "
     "and none of these operations changes its input.",
     [I, C], "All fields, projected and latitude-longitude grids, ascending and descending, km or m, circular or not.",
     "Tests use one 3 x 3 grid per case in metres.",
     ["improver/utilities/spatial.py"],
     [("differences and gradients", "improver/utilities/spatial.py:DifferenceBetweenAdjacentGridSquares, GradientBetweenAdjacentGridSquares"),
      ("distances", "improver/utilities/spatial.py:BaseDistanceCalculator"), ("spacing", "improver/utilities/spatial.py:calculate_grid_spacing")],
     ["GradientBetweenAdjacentGridSquares()(cube)", "distance_to_number_of_grid_cells(cube, d)"],
     design="Oracle: finite differences and great-circle arc lengths recomputed from the coordinate values of the case; transforms of points through an independent evaluation of the projection formulas.")

prop("C09", "Integration, fits, rescaling and gap filling satisfy their definitions",
     "Vertical integration is the cumulative trapezium sum of the positive values over the layers between the start and end points (0 included), "
     "in either direction and for any order of levels and dimensions. A linear fit along any axes is the least-squares line "
     "of the points that are present; rescaling is the affine (optionally clipped) map of the ranges. Filling gaps leaves present points alone, fills points inside the hull of "
     "the data from its triangulation (exact for affine fields), never beyond a limit, and otherwise takes the nearest difference.",
     [I, C], "All profiles, level orders, start and end points, gaps, axes, ranges, limits.",
     "Tests use one profile and one small field with a single gap.",
     ["improver/utilities/mathematical_operations.py", "improver/utilities/rescale.py", "improver/utilities/interpolation.py"],
     [("integration", "improver/utilities/mathematical_operations.py:Integration"), ("fit", "improver/utilities/mathematical_operations.py:fast_linear_fit"),
      ("gap filling", "improver/utilities/interpolation.py")],
     ["Integration()(cube)", "fast_linear_fit(x, y)", "rescale(data)", "InterpolateUsingDifference()(cube, reference)"],
     design="Oracle: layer-by-layer sums, numpy polyfit of the present points, affine maps, convex hull membership and affine fields for triangulation, brute-force nearest points.")

prop("C10", "NetCDF comparison reports a difference exactly when the files differ",
     "Comparing two netCDF files reports (through the given reporter, or by raising) every difference in groups, dimensions, variables, "
     "attributes and their types, variable types, shapes and data beyond the tolerances, and reports nothing if there is none; in particular a file always equals itself. "
     "Coordinate variables must match exactly, NaN equals NaN, excluded variables and ignored attributes do not take part, and the "
     "comparison carries on after a difference when the reporter returns.",
     [I, C], "All pairs of files made of nested groups, dimensions, variables of any type, attributes of any type, tolerances, exclusions.",
     "Tests change one thing in one file.",
     ["improver/utilities/compare.py"],
     [("recursive comparison", "improver/utilities/compare.py:compare_datasets, compare_attributes, compare_data")],
     ["compare_netcdfs(a, b, reporter=...)"],
     design="Oracle: a comparison of the generated file models (not of the files), each difference with the words its report must contain; files are written through netCDF4 into a scratch folder.")

prop("C11", "Array, angle, distribution and configuration helpers meet their contracts",
     "Reordering by an index array picks exactly the indexed member at every point and refuses bad indices; flattening yields the leaves in order; rounding returns "
     "the nearest integers and refuses anything that is not integer-equivalent; angles survive conversion to complex and back and lie in [0, 360). "
     "The truncated normal's quantiles, cdf, sf and pdf agree with each other and with the definition. Radii and lead times are paired one to one, configuration documents are read unchanged, "
     "conflicting leading dimensions are refused, every public API name resolves to its plugin, standard encodings and bounds are consistent, and output capture is always undone.",
     [I, C], "All arrays, nested iterables, angles, truncation points, radii, documents, dictionaries.",
     "Tests use one example each.",
     ["improver/utilities/indexing_operations.py", "improver/utilities/flatten.py", "improver/utilities/round.py", "improver/utilities/complex_conversion.py",
      "improver/ensemble_copula_coupling/_scipy_continuous_distns.py", "improver/nbhood/__init__.py", "improver/synthetic_data/utilities.py", "improver/utilities/cli_utilities.py",
      "improver/utilities/redirect_stdout.py", "improver/spotdata/utilities.py", "improver/api/__init__.py"],
     [("reordering", "improver/utilities/indexing_operations.py:choose"), ("truncated normal", "improver/ensemble_copula_coupling/_scipy_continuous_distns.py:truncnorm_gen")],
     ["choose(index, data)", "round_close(x)", "complex_to_deg(z)", "truncnorm.ppf(q, a, b)", "radius_by_lead_time(radii, leads)"],
     design="Oracle: elementwise definitions in plain Python, round trips, erfc-based truncated normal masses.")
