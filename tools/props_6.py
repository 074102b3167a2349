"""Properties C21-C23: regridding and spot data."""
I, C, H = "inputs", "configurations", "histories"

prop("C21", "Regridding interpolates from source points of the right surface type",
     "Each target point inside the source domain gets the bilinear combination, or the nearest, of its four surrounding source points; with land-sea masks only source points of its own surface type have influence, by the documented fallbacks (triangle, inverse distance weights of the four nearest, up to eight within the vicinity, finally ignoring the type). "
     "Points outside the domain are masked or NaN, invalid source points affect only the targets that use them, and descending axes, leading dimensions and larger masks make no difference. "
     "Grid coordinates and grid attributes come from the target, everything else (coordinates, cell methods, name, units, type) from the source, and a mask that does not contain the source grid is refused.",
     [I, C], "All sources, targets, masks, modes, vicinities and dimensions.",
     "Tests use two fixed grids with one mask each.",
     ["improver/regrid"],
     [("plugin and land-sea adjustment", "improver/regrid/landsea.py:RegridLandSea, AdjustLandSeaPoints, grid_contains_cutout"),
      ("own regridding", "improver/regrid/landsea2.py:RegridWithLandSeaMask"),
      ("weights", "improver/regrid/bilinear.py, improver/regrid/idw.py, improver/regrid/nearest.py, improver/regrid/grid.py")],
     ["RegridLandSea(mode, landmask=..., landmask_vicinity=...)(cube, target, regridded_title=...)"],
     design="Oracle: per target point the documented decision tree in double precision (corners, triangle, ECEF distances on WGS84); points whose decision hangs on a tie or rounding are skipped, equally near sources are all accepted.")

prop("C22", "Each site gets the grid point that its constraints select",
     "Every site inside the domain is given the nearest grid point; with the land constraint the nearest land point strictly within the search radius, with the height constraint the point of least height difference (the nearer of equals) among the nearest points within radius and node limit, and the nearest point where nothing qualifies. "
     "Sites keep their order, altitudes unknown are those of the nearest point, vertical displacements are site minus grid point, identifiers are padded strings (refused if missing, repeated or too long), sites outside are dropped with a warning. "
     "The result is bound to its grid; site and grid coordinate systems, dimension order and global longitudes make no difference.",
     [I, C], "All grids, masks, orographies, sites, radii and limits.",
     "Tests use one regional and one global grid with a handful of sites.",
     ["improver/spotdata/neighbour_finding.py"],
     [("neighbour selection", "improver/spotdata/neighbour_finding.py:NeighbourSelection"),
      ("result cube", "improver/spotdata/build_spotdata_cube.py:build_spotdata_cube"),
      ("grid hash", "improver/metadata/utilities.py:create_coordinate_hash, check_grid_match")],
     ["NeighbourSelection(...)(sites, orography, land_mask)"],
     design="Oracle: brute force over all grid points with exact distances (metres, or chords of the sphere); cases with ties, points on the radius or sites on the rim are rejected.")

prop("C23", "Site forecasts are the grid point values, adjusted exactly as documented",
     "Extraction takes each site's value (mask, members, percentiles, thresholds, times, two-dimensional coordinates and their bounds) from the grid point of the requested method, whatever the order of the cube's dimensions, and refuses cubes of another grid. "
     "Lapse rates change temperatures by rate times displacement up to 50 m and by the environmental rate beyond; height adjustment adds the displacement, or interpolates each site's probabilities at shifted thresholds with constant continuation. "
     "Chains of extraction or subsetting, member averages, percentiles and lapse rates equal the steps one by one, keep the site dimension and warn when an option cannot be honoured.",
     [I, C, H], "All forecasts, neighbour cubes, methods, lapse rates, displacements and option combinations.",
     "Tests use one or two layouts with several sites.",
     ["improver/spotdata"],
     [("extraction", "improver/spotdata/spot_extraction.py:SpotExtraction"),
      ("lapse rates", "improver/spotdata/apply_lapse_rate.py:SpotLapseRateAdjust; improver/lapse_rate.py:compute_lapse_rate_adjustment"),
      ("heights", "improver/spotdata/height_adjustment.py:SpotHeightAdjustment"),
      ("chains", "improver/spotdata/spot_manipulation.py:SpotManipulation")],
     ["SpotExtraction(method)(neighbours, cube); SpotLapseRateAdjust(...)(spot, neighbours[, rates])", "SpotHeightAdjustment(...)(spot, neighbours); SpotManipulation(...)(cubes)"],
     design="Oracle: numpy indexing, the two-part lapse rate, per-site np.interp, and the composition of the steps on numpy arrays (percentiles of probabilities through the plugin that C13 decides).")
