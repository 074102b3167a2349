"""Building cubes from JSON specs (worker side)."""
import iris
import numpy as np
from iris.coord_systems import GeogCS, LambertAzimuthalEqualArea
from iris.coords import AuxCoord, CellMethod, DimCoord
from iris.cube import Cube

ELLIPSOID = GeogCS(semi_major_axis=6378137.0, semi_minor_axis=6356752.314140356)
LAEA = LambertAzimuthalEqualArea(
    latitude_of_projection_origin=54.9, longitude_of_projection_origin=-2.5,
    false_easting=0.0, false_northing=0.0, ellipsoid=ELLIPSOID)
GLOBAL = GeogCS(6371229.0)
TIME_UNIT = "seconds since 1970-01-01 00:00:00"
ATTRS = {"title": "MOGREPS-UK Model Forecast on UK 2 km Standard Grid",
         "source": "IMPROVER", "institution": "Met Office"}


def array(spec, dtype=np.float32):
    """Array (masked if the spec has a mask) from {"shape", "values", "mask"}."""
    data = np.array(spec["values"], dtype=dtype).reshape(spec["shape"])
    if spec.get("mask") is not None:
        data = np.ma.MaskedArray(
            data, mask=np.array(spec["mask"], dtype=bool).reshape(spec["shape"]))
    return data


def yx_coords(grid):
    y = (grid["y0"] + grid["dy"] * np.arange(grid["ny"])).astype(np.float32)
    x = (grid["x0"] + grid["dx"] * np.arange(grid["nx"])).astype(np.float32)
    if grid.get("ydesc"):
        y = y[::-1].copy()
    if grid.get("xdesc"):
        x = x[::-1].copy()
    if grid["kind"] == "laea":
        names, units, cs = ("projection_y_coordinate", "projection_x_coordinate"), "m", LAEA
    else:
        names, units, cs = ("latitude", "longitude"), "degrees", GLOBAL
    out = []
    for pts, name, step in ((y, names[0], grid["dy"]), (x, names[1], grid["dx"])):
        bounds = None
        if grid.get("bounds"):
            half = np.float32(step / 2.0) * (-1 if len(pts) > 1 and pts[0] > pts[1] else 1)
            bounds = np.stack([pts - half, pts + half], axis=1).astype(np.float32)
        out.append(DimCoord(pts, standard_name=name, units=units, coord_system=cs,
                            bounds=bounds))
    return out


def time_coords(t):
    """[time, frt, fp] scalar coordinates, IMPROVER's standard types."""
    time = t["frt"] + t["fp"]
    tb = fb = None
    if t.get("period"):
        tb = np.array([time - t["period"], time], dtype=np.int64)
        fb = np.array([t["fp"] - t["period"], t["fp"]], dtype=np.int32)
    return [
        DimCoord(np.int64(time), standard_name="time", units=TIME_UNIT, bounds=tb),
        DimCoord(np.int64(t["frt"]), standard_name="forecast_reference_time",
                 units=TIME_UNIT),
        DimCoord(np.int32(t["fp"]), standard_name="forecast_period", units="seconds",
                 bounds=fb),
    ]


def realization_coord(points):
    return DimCoord(np.array(points, dtype=np.int32), standard_name="realization",
                    units="1")


def percentile_coord(points):
    return DimCoord(np.array(points, dtype=np.float32), long_name="percentile", units="%")


def threshold_coord(points, name, units, relative="above", dtype=np.float32):
    attrs = {"spp__relative_to_threshold": {
        "above": "greater_than", "below": "less_than"}.get(relative, relative)}
    kw = {"units": units, "var_name": "threshold", "attributes": attrs}
    pts = np.array(points, dtype=dtype)
    try:
        return DimCoord(pts, standard_name=name, **kw)
    except ValueError:
        return DimCoord(pts, long_name=name, **kw)


def new_cube(data, name, units, dims, scalars=(), attributes=None, cell_methods=None):
    """Cube with dimension coordinates `dims` in order, and scalar coordinates."""
    cube = Cube(data, units=units, attributes=dict(ATTRS if attributes is None
                                                  else attributes))
    cube.rename(name)
    for i, coord in enumerate(dims):
        if coord is None:
            continue
        if coord.shape != (cube.shape[i],):
            raise AssertionError("harness: coordinate %s has shape %s, cube %s" % (
                coord.name(), coord.shape, cube.shape))
        if isinstance(coord, DimCoord):
            cube.add_dim_coord(coord, i)
        else:
            cube.add_aux_coord(coord, i)
    for coord in scalars:
        cube.add_aux_coord(coord)
    if cell_methods:
        cube.cell_methods = cell_methods
    return cube


def variable_cube(field, name, units, grid, t, lead=(), attributes=None,
                  dtype=np.float32, scalars=()):
    """field {"shape","values","mask"} over lead coords + y, x."""
    data = array(field, dtype)
    return new_cube(data, name, units, list(lead) + yx_coords(grid),
                    list(time_coords(t)) + list(scalars), attributes)


def spot_cube(data, name, units, nsites, lead=(), scalars=(), attributes=None, alts=None,
              lats=None, lons=None, wmo=None, unique_ids=None, unique_attr="met_office_site_id"):
    data = np.ma.asarray(data) if np.ma.isMaskedArray(data) else np.asarray(data)
    n = nsites
    alts = np.array(alts if alts is not None else 10.0 * np.arange(n), dtype=np.float32)
    lats = np.array(lats if lats is not None else 50 + np.arange(n), dtype=np.float32)
    lons = np.array(lons if lons is not None else np.arange(n) - 5, dtype=np.float32)
    wmo = wmo if wmo is not None else ["%05d" % (3000 + i) for i in range(n)]
    cube = Cube(data, units=units, attributes=dict(ATTRS if attributes is None
                                                  else attributes))
    cube.rename(name)
    k = data.ndim - 1
    for i, coord in enumerate(lead):
        if isinstance(coord, DimCoord):
            cube.add_dim_coord(coord, i)
        elif coord is not None:
            cube.add_aux_coord(coord, i)
    cube.add_dim_coord(DimCoord(np.arange(n, dtype=np.int32), long_name="spot_index",
                                units="1"), k)
    cube.add_aux_coord(AuxCoord(alts, standard_name="altitude", units="m"), k)
    cube.add_aux_coord(AuxCoord(lats, standard_name="latitude", units="degrees"), k)
    cube.add_aux_coord(AuxCoord(lons, standard_name="longitude", units="degrees"), k)
    cube.add_aux_coord(AuxCoord(np.array(wmo), long_name="wmo_id", units="no_unit"), k)
    if unique_ids is not None:
        cube.add_aux_coord(AuxCoord(np.array(unique_ids), long_name=unique_attr,
                                    units="no_unit",
                                    attributes={"unique_site_identifier": "true"}), k)
    for coord in scalars:
        cube.add_aux_coord(coord)
    return cube


def layout_cube(lay, data, name, units, main=None, attributes=None, scalars=(), y=1.0, **kw):
    """Cube for a generated layout.  data has dimensions [main,] [lead,] y, x (or site);
    main is the main coordinate (a dimension if its array has one, else a scalar)."""
    k = lay["k"]
    t = lay["times"]
    tc = time_coords(t)
    dims, scal = [], list(scalars)
    main_dim = data.ndim > len(lay["inner"])
    if main is not None:
        (dims if main_dim else scal).append(main)
    order = ["main"] if main_dim else []
    if k and lay["lead"] == "time":
        pts = t["frt"] + t["fp"] + 3600 * np.arange(k, dtype=np.int64)
        def bounds(x):
            return np.stack([x - t["period"], x], -1).astype(x.dtype) if t["period"] else None

        fp = np.array(pts - t["frt"], np.int32)
        dims.append(DimCoord(pts, standard_name="time", units=TIME_UNIT, bounds=bounds(pts)))
        aux = AuxCoord(fp, standard_name="forecast_period", units="seconds", bounds=bounds(fp))
        scal.append(tc[1])
    else:
        aux = None
        if k:
            dims.append(realization_coord(np.arange(k)))
        scal += tc
    if k:
        order.append(lay["lead"])
    if lay["spot"]:
        cube = spot_cube(data, name, units, data.shape[-1], lead=dims, scalars=scal,
                         attributes=attributes, **kw)
        order.append("site")
    else:
        cube = new_cube(data, name, units, dims + yx_coords(lay["grid"]), scal, attributes)
        order += ["y", "x"]
    if aux is not None:
        cube.add_aux_coord(aux, cube.coord_dims("time"))
    want = [d for d in lay["dims"] if d in order]
    cube.transpose([order.index(d) for d in want])
    return cube


def aligned(result, lay, lead_name=None):
    """Data of a result with dimensions [lead_name,] [lead,] y, x (or site) in any order, moved
    to that order; dimensions of length one that became scalar coordinates are put back."""
    if lay["spot"]:
        space = ["spot_index"]
    else:
        space = [result.coord(axis=a).name() for a in "yx"]
    names = ([lead_name] if lead_name else []) + ([lay["lead"]] if lay["k"] else []) + space
    there = [n for n in names if result.coord_dims(n)]
    order = [result.coord_dims(n)[0] for n in there]
    data = result.data
    if sorted(order) != list(range(data.ndim)):
        raise AssertionError("dimensions of the result: %s" % result.summary(shorten=True))
    data = data.transpose(order)
    for i, n in enumerate(names):
        if n not in there:
            data = np.expand_dims(data, i) if not np.ma.isMaskedArray(data) else \
                np.ma.expand_dims(data, i)
    return data


_ = (iris, CellMethod)


def history_cube(data, name, units, validity, fp, lead=(), grid=None, attributes=None,
                 truth=False, order=None, period=None, **kw):
    """Cube over validity times (seconds), with `lead` coordinates, then y, x (grid) or sites.
    A forecast has one forecast period; a truth has forecast period zero."""
    pts = np.array(validity, np.int64)
    lag = 0 if truth else fp
    tb = None if period is None else np.stack([pts - period, pts], 1)
    tdim = DimCoord(pts, standard_name="time", units=TIME_UNIT, bounds=tb)
    fb = None if period is None else np.array([lag - period, lag], np.int32)
    scal = [DimCoord(np.int32(lag), standard_name="forecast_period", units="seconds",
                     bounds=fb)]
    dims = [tdim] + list(lead)
    if grid is not None:
        cube = new_cube(data, name, units, dims + yx_coords(grid), scal, attributes)
    else:
        cube = spot_cube(data, name, units, data.shape[-1], lead=dims, scalars=scal,
                         attributes=attributes, **kw)
    cube.add_aux_coord(AuxCoord(pts - lag, standard_name="forecast_reference_time",
                                units=TIME_UNIT), 0)
    if order is not None:
        cube.transpose(order)
    return cube
