"""C23: data at sites: extraction, lapse rates, heights and percentiles."""
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: gridded forecasts (members, percentiles, thresholds, times, two-dimensional coordinates, "
        "masks, any dimension order) with neighbour cubes of several methods; site forecasts with lapse "
        "rates and vertical displacements; height profiles; chains of extraction, member averages, "
        "percentiles and lapse rates; non-trivial when the sites' values differ")
QUICK = 2400
THOROUGH = 40000
METHODS = ["nearest", "nearest_land", "nearest_minimum_dz", "nearest_land_minimum_dz"]


def neighbours(case, grid_cube, unique=False):
    """A neighbour cube of the methods, indices and displacements of the case."""
    from improver.metadata.utilities import create_coordinate_hash
    from improver.spotdata.build_spotdata_cube import build_spotdata_cube

    n = case["n"]
    m = case["methods"]
    data = np.zeros((len(m), 3, n), np.float32)
    data[:, 0] = np.reshape(case["ix"], (len(m), n))
    data[:, 1] = np.reshape(case["iy"], (len(m), n))
    data[:, 2] = np.reshape(case["dz"], (len(m), n))
    cube = build_spotdata_cube(
        data, "grid_neighbours", 1, np.arange(n, dtype=np.float32) * 20,
        np.arange(n, dtype=np.float32) + 50, np.arange(n, dtype=np.float32) - 3,
        ["%05d" % (3000 + i) if i != 1 else "None" for i in range(n)],
        unique_site_id=["%08d" % (100 + i) for i in range(n)] if unique else None,
        unique_site_id_key="met_office_site_id" if unique else None,
        neighbour_methods=m, grid_attributes=["x_index", "y_index", "vertical_displacement"])
    if unique:
        cube.coord("met_office_site_id")
    cube.attributes["model_grid_hash"] = create_coordinate_hash(grid_cube)
    return cube


def site_part(draw, g, ny, nx, max_sites=5):
    n = draw(g.integers(1, max_sites))
    m = draw(g.permutation(4))[:draw(g.integers(1, 3))]
    k = len(m) * n
    return {"n": n, "methods": [METHODS[i] for i in m],
            "pick": draw(g.integers(0, len(m) - 1)),
            "ix": draw(g.fixed(k, g.integers(0, nx - 1))),
            "iy": draw(g.fixed(k, g.integers(0, ny - 1))),
            "dz": draw(g.fixed(k, g.one_of(g.integers(-60, 60), g.integers(-500, 500),
                                           g.sampled([0, 50, -50, 50.5, -51]))))}


# ---------------------------------------------------------------- extraction
def gen_extract():
    from vp import gens as g

    @g.composite
    def case(draw):
        ny, nx = draw(g.integers(2, 5)), draw(g.integers(2, 5))
        lead = draw(g.sampled(["none", "realization", "percentile", "threshold", "time", "two"]))
        k = draw(g.integers(1, 3)) if lead != "none" else 0
        shape = ([k] if k else []) + ([2] if lead == "two" else []) + [ny, nx]
        out = site_part(draw, g, ny, nx)
        out.update({
            "ny": ny, "nx": nx, "lead": lead, "k": k,
            "data": draw(g.masked_field(shape, g.grid_ints(-40, 40, 0.5))),
            "order": draw(g.permutation(len(shape))),
            "local": draw(g.sampled([None, None, "yx", "xy"])), "localbounds": draw(g.booleans()),
            "local_values": draw(g.fixed(ny * nx, g.integers(0, 20))),
            "unique": draw(g.booleans()), "title": draw(g.sampled([None, "Spot title"])),
            "grid_attrs": draw(g.booleans()), "cell": draw(g.booleans()),
            "height": draw(g.booleans()), "times": draw(g.times()), "second": draw(g.booleans()),
            "label": draw(g.sampled([None, "points", "bounds"])),
            "bad": draw(g.sampled([None] * 8 + ["grid", "method"]))})
        return out

    return case()


def label_coord(case, k, dim):
    """An auxiliary coordinate along a leading dimension, with or without bounds."""
    from iris.coords import AuxCoord

    if not case.get("label") or not k:
        return []
    pts = np.arange(k if dim == 0 else 2, dtype=np.int32) * 10
    bounds = np.stack([pts - 5, pts], -1) if case["label"] == "bounds" else None
    return [(AuxCoord(pts, bounds=bounds, long_name="run_length", units="minutes"), dim)]


def lead_coords(case):
    from iris.coords import AuxCoord, DimCoord
    from vp import cubes as c

    k, lead = case["k"], case["lead"]
    scal = c.time_coords(case["times"])
    aux = []
    if lead == "time":
        t = case["times"]
        scal = [x for x in scal if x.name() == "forecast_reference_time"]
        pts = t["frt"] + t["fp"] + 3600 * np.arange(k)
        dims = [DimCoord(pts.astype(np.int64), standard_name="time", units=c.TIME_UNIT)]
        aux = [(AuxCoord((pts - t["frt"]).astype(np.int32), standard_name="forecast_period",
                         units="seconds"), 0)]
        return dims, scal, aux + label_coord(case, k, 0)
    dims = [] if not k else {
        "realization": [c.realization_coord(range(k))],
        "percentile": [c.percentile_coord([25, 50, 75][:k])],
        "threshold": [c.threshold_coord([1.0, 2.0, 4.0][:k], "air_temperature", "K")],
        "two": [c.percentile_coord([25, 50, 75][:k]), c.realization_coord([0, 1])]}[lead]
    return dims, scal, aux + label_coord(case, k, len(dims) - 1)


def run_extract(case):
    from improver.spotdata.spot_extraction import SpotExtraction
    from iris.coords import AuxCoord, CellMethod
    from vp import cubes as c

    ny, nx, n = case["ny"], case["nx"], case["n"]
    dims, scal, aux = lead_coords(case)
    data = c.array(case["data"])
    attrs = dict(c.ATTRS)
    if case["grid_attrs"]:
        attrs.update(mosg__grid_type="standard", mosg__grid_version="1.3.0",
                     mosg__grid_domain="uk", mosg__model_configuration="uk_ens")
    yx = c.yx_coords({"kind": "laea", "ny": ny, "nx": nx, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0})
    if case["height"]:
        scal = scal + [AuxCoord(np.float32(1.5), standard_name="height", units="m")]
    cm = (CellMethod("maximum", coords="time"),) if case["cell"] else None
    if cm and case["second"]:
        cm += (CellMethod("mean", coords="realization", comments="of all"),)
    cube = c.new_cube(data, "air_temperature", "K", dims + yx, scal, attrs, cm)
    for coord, d in aux:
        cube.add_aux_coord(coord, d)
    if case["local"]:
        v = np.array(case["local_values"], np.int64).reshape(ny, nx) * 3600
        b = np.stack([v - 3600, v], -1) if case["localbounds"] else None
        d = (data.ndim - 2, data.ndim - 1)
        if case["local"] == "xy":
            co = AuxCoord(v.T, long_name="local_time", units=c.TIME_UNIT,
                          bounds=None if b is None else np.swapaxes(b, 0, 1))
            d = d[::-1]
            cube.transpose(list(range(data.ndim - 2)) + [data.ndim - 1, data.ndim - 2])
            cube.add_aux_coord(co, (data.ndim - 2, data.ndim - 1))
            cube.transpose(list(range(data.ndim - 2)) + [data.ndim - 1, data.ndim - 2])
        else:
            cube.add_aux_coord(AuxCoord(v, long_name="local_time", units=c.TIME_UNIT, bounds=b), d)
    cube.transpose(case["order"])
    nb = neighbours(case, cube, case["unique"])
    ordered = [x.name() for x in cube.dim_coords if x not in yx]
    lead = [i for i in case["order"] if i < data.ndim - 2]
    if case["bad"] == "grid":
        nb.attributes["model_grid_hash"] = "0" * 10
        o.raises(ValueError, SpotExtraction(), nb, cube)
        return True
    method = case["methods"][case["pick"]]
    if case["bad"] == "method":
        other = [m for m in METHODS if m not in case["methods"]][0]
        o.raises(ValueError, SpotExtraction(other), nb, cube)
        return True
    keep = o.snapshot(nb)
    res = SpotExtraction(neighbour_selection_method=method)(nb, cube, new_title=case["title"])
    o.unchanged(keep, nb, "neighbour cube")
    ix = np.reshape(case["ix"], (-1, n))[case["pick"]]
    iy = np.reshape(case["iy"], (-1, n))[case["pick"]]
    want = np.ma.getdata(data)[..., iy, ix].transpose(lead + [data.ndim - 2])
    mask = np.ma.getmaskarray(data)[..., iy, ix].transpose(lead + [data.ndim - 2])
    o.close_masked(res.data, want, mask, "values")
    o.equal(np.ma.isMaskedArray(res.data), np.ma.isMaskedArray(data), "masked")
    o.equal(res.dtype, np.float32, "type")
    o.equal((res.name(), str(res.units)), ("air_temperature", "K"), "name and units")
    o.equal([x.name() for x in res.dim_coords], ordered + ["spot_index"], "dimensions")
    for x in dims:
        o.same_coord(res.coord(x.name()), x)
        o.equal(res.coord(x.name()).attributes, x.attributes, "attributes")
    for x in scal:
        o.same_coord(res.coord(x.name()), x)
        o.equal(res.coord_dims(x.name()), (), "dimension of " + x.name())
    for x, _ in aux:
        o.same_coord(res.coord(x.name()), x)
        o.equal([res.dim_coords[i].name() for i in res.coord_dims(x.name())],
                [cube.dim_coords[i].name() for i in cube.coord_dims(x.name())], "dimension of " + x.name())
    last = (res.ndim - 1,)
    if case["local"]:
        x = res.coord("local_time")
        o.equal(res.coord_dims(x), last, "dimension of the local time")
        o.equal(list(x.points), list(v[iy, ix]), "local times")
        if b is not None:
            o.equal(x.bounds.tolist(), b[iy, ix].tolist(), "bounds of local times")
        else:
            o.check(x.bounds is None, "bounds of the local time")
    for name in ("altitude", "latitude", "longitude", "wmo_id") + (
            ("met_office_site_id",) if case["unique"] else ()):
        o.equal(list(res.coord(name).points), list(nb.coord(name).points), name)
        o.equal(res.coord_dims(name), last, "dimension of " + name)
    if case["unique"]:
        o.equal(dict(res.coord("met_office_site_id").attributes), {}, "attributes of the site ids")
    a = dict(c.ATTRS, title=case["title"] or "unknown",
             model_grid_hash=nb.attributes["model_grid_hash"])
    if case["grid_attrs"]:
        a["mosg__model_configuration"] = "uk_ens"
    o.equal(dict(res.attributes), a, "attributes")
    o.equal(res.cell_methods, cube.cell_methods, "cell methods")
    o.label(case["lead"], case["local"], n == 1 and "one site")
    return len(set(np.ravel(want))) > 1


# ---------------------------------------------------------------- lapse rates
def gen_lapse():
    from vp import gens as g

    @g.composite
    def case(draw):
        ny, nx = draw(g.integers(2, 4)), draw(g.integers(2, 4))
        out = site_part(draw, g, ny, nx)
        lead = draw(g.sampled(["none", "realization", "percentile", "threshold", "two"]))
        k = draw(g.integers(1, 3)) if lead != "none" else 0
        shape = ([k] if k else []) + ([2] if lead == "two" else []) + [out["n"]]
        out.update({
            "ny": ny, "nx": nx, "lead": lead, "k": k, "times": draw(g.times()),
            "data": draw(g.field(shape, g.grid_ints(250, 310, 0.25))), "shape": shape,
            "rates": draw(g.field([ny, nx], g.sampled([-0.0098, -0.0065, 0.0, 0.01, 0.0294]))),
            "fixed": draw(g.sampled([None, None, -0.0098, 0.0, 0.02])),
            "name": draw(g.sampled(["air_temperature", "air_temperature",
                                    "feels_like_temperature"])),
            "bad": draw(g.sampled([None] * 10 + ["neither", "both", "name", "height", "grid",
                                                 "ratename", "noheight"]))})
        return out

    return case()


def run_lapse(case):
    from improver.spotdata.apply_lapse_rate import SpotLapseRateAdjust
    from iris.coords import AuxCoord
    from vp import cubes as c

    n, bad = case["n"], case["bad"]
    dims, scal, _ = lead_coords(case)
    data = np.array(case["data"], np.float32).reshape(case["shape"])
    height = AuxCoord(np.float32(1.5), standard_name="height", units="m")
    name = case["name"] if bad != "name" else "wind_speed"
    if case["lead"] == "threshold":
        name = "probability_of_%s_above_threshold" % name
    yx = c.yx_coords({"kind": "laea", "ny": case["ny"], "nx": case["nx"], "dy": 2000, "dx": 2000,
                      "y0": 0, "x0": 0})
    rates = np.array(case["rates"], np.float32).reshape(case["ny"], case["nx"])
    lr = c.new_cube(rates, "air_temperature_lapse_rate" if bad != "ratename" else "lapse_rate",
                    "K m-1", yx, c.time_coords(case["times"]) + ([height] if bad != "noheight"
                                                                 else []))
    nb = neighbours(case, lr)
    spot = c.spot_cube(data, name, "K", n, dims, scal + [height.copy()])
    spot.attributes["model_grid_hash"] = nb.attributes["model_grid_hash"]
    if bad == "height":
        spot.coord("height").points = np.float32(10)
    if bad == "grid":
        spot.attributes["model_grid_hash"] = "0"
    fixed = case["fixed"]
    if bad in ("both", "neither"):
        fixed = -0.0065 if bad == "both" else None
    elif bad in ("height", "ratename", "noheight"):
        fixed = None
    args = [spot, nb]
    if (fixed is None and bad != "neither") or bad == "both":
        args.append(lr)
    method = case["methods"][case["pick"]]
    plugin = SpotLapseRateAdjust(neighbour_selection_method=method, fixed_lapse_rate=fixed)
    keep = [o.snapshot(x) for x in args]
    if bad or case["lead"] == "threshold":
        o.raises(Exception, plugin, *args)
        return True
    res = plugin(*args)
    for before, x in zip(keep, args):
        o.unchanged(before, x)
    i = case["pick"]
    dz = np.reshape(case["dz"], (-1, n))[i].astype(float)
    rate = fixed if fixed is not None else rates[np.reshape(case["iy"], (-1, n))[i],
                                                 np.reshape(case["ix"], (-1, n))[i]].astype(float)
    near = np.clip(dz, -50, 50)
    o.close(res.data, data + rate * near - 0.0065 * (dz - near), "temperatures", atol=2e-3)
    o.equal(res.dtype, np.float32, "type")
    same = spot.copy(data=res.data)
    same.attributes["title"] = "Post-Processed " + c.ATTRS["title"]
    o.unchanged(o.snapshot(same), res, "metadata of the result")
    o.label("fixed" if fixed is not None else "grid", case["lead"], abs(dz).max() > 50 and "beyond 50 m")
    return bool(np.any(dz != 0))


# ---------------------------------------------------------------- heights
def gen_height():
    from vp import gens as g

    @g.composite
    def case(draw):
        out = site_part(draw, g, 3, 3)
        n = out["n"]
        kind = draw(g.sampled(["threshold", "threshold", "threshold", "realization", "percentile",
                               "none"]))
        k = 0 if kind == "none" else draw(g.integers(1 if kind != "threshold" else 2, 4))
        steps = draw(g.fixed(max(k, 1), g.sampled([50, 100, 300, 37.5])))
        members = draw(g.sampled([None, None, None, "dim", "scalar"]))
        r = {"dim": 2}.get(members, 0) if kind == "threshold" else 0
        shape = ([r] if r else []) + ([k] if k else []) + [n]
        out.update({
            "kind": kind, "k": k, "r": r, "members": members, "shape": shape,
            "points": [sum(steps[:i]) for i in range(k)],
            "relative": draw(g.sampled(["above", "below", "above"])),
            "units": draw(g.sampled(["m", "m", "ft", "km"])),
            "data": draw(g.fixed(g.size(shape), g.grid_ints(0, 1, 1 / 32)))
            if kind == "threshold" else draw(g.field(shape, g.integers(0, 3000))),
            "order": draw(g.permutation(len(shape))), "times": draw(g.times()),
            "few": kind == "threshold" and draw(g.integers(0, 12)) == 0})
        return out

    return case()


def run_height(case):
    from improver.spotdata.height_adjustment import SpotHeightAdjustment
    from vp import cubes as c

    n, k, kind = case["n"], case["k"], case["kind"]
    factor = {"m": 1.0, "ft": 0.3048, "km": 1000.0}[case["units"]]
    data = np.array(case["data"], np.float32).reshape(case["shape"])
    name = "cloud_base_altitude"
    dims, scal = [], c.time_coords(case["times"])
    metres = np.array(case["points"], float)
    if kind == "threshold":
        if case["relative"] == "above":
            data = -np.sort(-data, axis=-2)
        else:
            data = np.sort(data, axis=-2)
        if case["few"]:
            data = data[..., :1, :]
            metres = metres[:1]
        pts = (metres / factor).astype(np.float32)
        dims = [c.threshold_coord(pts, name, case["units"], case["relative"])]
        if case["r"]:
            dims = [c.realization_coord(range(case["r"]))] + dims
        elif case["members"] == "scalar":
            scal = scal + [c.realization_coord([3])]
    elif k:
        dims = [c.realization_coord(range(k))] if kind == "realization" else [
            c.percentile_coord([10, 30, 50, 90][:k])]
    title = "probability_of_%s_%s_threshold" % (name, case["relative"]) if kind == "threshold" \
        else name
    spot = c.spot_cube(data, title, "1" if kind == "threshold" else case["units"], n, dims, scal)
    spot.transpose(case["order"])
    yx = c.yx_coords({"kind": "laea", "ny": 3, "nx": 3, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0})
    nb = neighbours(case, c.new_cube(np.zeros((3, 3), np.float32), "x", "1", yx))
    names = [x.name() for x in spot.dim_coords]
    before = o.snapshot(nb)
    plugin = SpotHeightAdjustment(neighbour_selection_method=case["methods"][case["pick"]])
    if case["few"]:
        o.raises(ValueError, plugin, spot, nb)
        return True
    meta = o.snapshot(spot)
    res = plugin(spot, nb)
    o.unchanged(before, nb, "neighbour cube")
    dz = np.reshape(case["dz"], (-1, n))[case["pick"]].astype(float)
    if kind == "threshold":
        exact = dims[-1].points.astype(float) * factor
        want = np.empty(data.shape)
        for s in range(n):
            for lead in np.ndindex(*data.shape[:-2]):
                want[lead + (slice(None), s)] = np.interp(
                    exact + dz[s], exact, data[lead + (slice(None), s)].astype(float))
        # within rounding of the thresholds
        tol = 2e-4 * max(1, abs(dz).max() / 100)
    else:
        want = data + dz / factor
        tol = 2e-3 / min(factor, 1)
    o.equal(sorted(x.name() for x in res.dim_coords), sorted(names), "dimensions")
    o.equal([x.name() for x in res.dim_coords], names, "order of dimensions")
    o.close(res.data, want.transpose(case["order"]), "values", atol=tol)
    o.equal(res.dtype, np.float32, "type")
    for x in dims + scal:
        o.same_coord(res.coord(x.name()), x)
        o.equal(res.coord(x.name()).attributes, x.attributes, "attributes of " + x.name())
    for x in ("altitude", "latitude", "longitude", "wmo_id", "spot_index"):
        o.same_coord(res.coord(x), spot.coord(x))
    o.equal((res.name(), str(res.units)), (title, "1" if kind == "threshold" else case["units"]),
            "name and units")
    o.label(kind, case["units"], n == 1 and "one site", case["r"] and "members",
            kind == "threshold" and case["relative"])
    return bool(np.any(dz != 0)) and len(set(np.ravel(data))) > 1


# ---------------------------------------------------------------- chains
def gen_chain():
    from vp import gens as g

    @g.composite
    def case(draw):
        ny, nx = draw(g.integers(2, 4)), draw(g.integers(2, 4))
        out = site_part(draw, g, ny, nx, 4)
        lead = draw(g.sampled(["none", "realization", "realization", "percentile", "percentile",
                               "threshold", "both"]))
        k = 0 if lead == "none" else draw(g.integers(2, 4))
        shape = ([2] if lead == "both" else []) + ([k] if k else []) + [ny, nx]
        prob = lead in ("threshold", "both")
        out.update({
            "ny": ny, "nx": nx, "lead": lead, "k": k, "shape": shape, "times": draw(g.times()),
            "data": draw(g.fixed(g.size(shape), g.grid_ints(0, 1, 1 / 16))) if prob else
            draw(g.field(shape, g.grid_ints(250, 300, 0.5))),
            "percentiles": draw(g.sampled([None, None, [50], [25, 75], [30], [0, 100], [20, 50, 90],
                                           50, 25, 0])),
            "lapse": draw(g.sampled([None, None, None, "fixed", "grid", "missing"])),
            "collapse": lead == "both" or (lead == "realization" and draw(g.integers(0, 4)) == 0),
            "fixedonly": draw(g.integers(0, 6)) == 0,
            "quiet": draw(g.booleans()), "spot": draw(g.sampled([None] * 5 + ["all", "subset",
                                                                            "nocoord", "nosite"])),
            "title": draw(g.sampled([None, "Spot title"])),
            "subset": draw(g.integers(1, 2 ** out["n"] - 1))})
        return out

    return case()


def run_chain(case):
    from improver.spotdata.spot_manipulation import SpotManipulation
    from improver.spotdata.utilities import get_neighbour_finding_method_name
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
        ConvertProbabilitiesToPercentiles, ResamplePercentiles)
    from iris.coords import AuxCoord
    from iris.cube import CubeList
    from vp import cubes as c

    n, lead, k = case["n"], case["lead"], case["k"]
    data = np.array(case["data"], np.float32).reshape(case["shape"])
    name, units, dims = "air_temperature", "K", []
    perc = [10.0, 30.0, 50.0, 75.0][:k]
    if lead == "realization":
        dims = [c.realization_coord(range(k))]
    elif lead == "percentile":
        dims = [c.percentile_coord(perc)]
        data = np.sort(data, axis=0)
    elif lead in ("threshold", "both"):
        data = -np.sort(-data, axis=-3)
        dims = [c.threshold_coord([270.0, 275.0, 280.0, 290.0][:k], name, "K")]
        name, units = "probability_of_air_temperature_above_threshold", "1"
        if lead == "both":
            dims = [c.realization_coord([0, 1])] + dims
    height = AuxCoord(np.float32(1.5), standard_name="height", units="m")
    yx = c.yx_coords({"kind": "laea", "ny": case["ny"], "nx": case["nx"], "dy": 2000, "dx": 2000,
                      "y0": 0, "x0": 0})
    scal = c.time_coords(case["times"]) + [height]
    grid = c.new_cube(data, name, units, dims + yx, scal)
    nb = neighbours(case, grid, True)
    method = case["methods"][case["pick"]]
    ix = np.reshape(case["ix"], (-1, n))[case["pick"]]
    iy = np.reshape(case["iy"], (-1, n))[case["pick"]]
    dz = np.reshape(case["dz"], (-1, n))[case["pick"]].astype(float)
    want_percentiles = case["percentiles"]
    plist = None if want_percentiles is None else list(np.atleast_1d(want_percentiles))
    kw = {"land_constraint": "land" in method, "similar_altitude": "dz" in method}
    o.equal(get_neighbour_finding_method_name(**{"land_constraint": "land" in method,
                                                 "minimum_dz": "dz" in method}), method, "method")
    lapse = case["lapse"]
    rate = np.linspace(-0.01, 0.02, case["ny"] * case["nx"]).astype(np.float32).reshape(
        case["ny"], case["nx"])
    cubes = [grid]
    if lapse == "grid":
        cubes.append(c.new_cube(rate, "air_temperature_lapse_rate", "K m-1", yx,
                                c.time_coords(case["times"]) + [height]))
        rates = rate[iy, ix].astype(float)
    elif lapse == "fixed":
        kw["fixed_lapse_rate"] = -0.0098
        rates = np.full(n, -0.0098)
    if lapse:
        kw["apply_lapse_rate_correction"] = True

    source = data[..., iy, ix]
    if case["spot"]:
        ids = ["%08d" % (100 + i) for i in range(n + 1)]
        sd = np.concatenate([source, source[..., :1]], -1)
        spot = c.spot_cube(sd, name, units, n + 1, dims, scal, unique_ids=ids,
                           unique_attr="met_office_site_id")
        cubes = [spot]
        if lapse:
            o.raises(NotImplementedError, SpotManipulation(**kw), CubeList(cubes + [nb]))
            return True
        if case["spot"] == "all":
            source = sd
        elif case["spot"] == "nocoord":
            o.raises(ValueError, SpotManipulation(subset_coord="kittens", **kw),
                     CubeList(cubes + [nb]))
            return True
        elif case["spot"] == "nosite":
            spot.coord("met_office_site_id").points = ["%08d" % (700 + i) for i in range(n + 1)]
            o.raises(ValueError, SpotManipulation(subset_coord="met_office_site_id", **kw),
                     CubeList(cubes + [nb]))
            return True
        else:
            sel = [i for i in range(n) if case["subset"] >> i & 1]
            if len(sel) < 2:
                o.reject("one site left")
            nb = nb[..., sel]
            source = source[..., sel]
            kw["subset_coord"] = "met_office_site_id"
    probs = lead in ("threshold", "both")
    if lapse and lapse != "missing" and probs and plist is None:
        o.raises(ValueError, SpotManipulation(realization_collapse=case["collapse"], **kw),
                 CubeList(cubes + [nb]))
        return True
    plugin = SpotManipulation(
        extract_percentiles=want_percentiles, realization_collapse=case["collapse"],
        new_title=case["title"], suppress_warnings=case["quiet"], skip_ecc_bounds=True, **kw)
    keep = o.snapshot(nb)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        res = plugin(CubeList(cubes + [nb]))
    o.unchanged(keep, nb, "neighbour cube")
    said = " ".join(str(w.message) for w in caught)

    # reference
    want = source.astype(float)
    axis = lead
    if case["collapse"]:
        want = want.mean(axis=0)
        axis = "threshold" if lead == "both" else "none"
    unknown = plist is not None and axis == "none"
    o.equal("not a known probabilistic type" in said, unknown and not case["quiet"], "warning")
    o.equal("was not provided, but the" in said, lapse == "missing" and not case["quiet"],
            "warning of the lapse rate")
    if plist is not None and axis != "none":
        if axis == "realization":
            want = np.percentile(want, plist, axis=0)
        elif axis == "percentile":
            p = np.array(perc)
            if set(plist) <= set(perc):
                want = want[[perc.index(x) for x in plist]]
            else:
                # as the resampling of the whole cube does
                ref = ResamplePercentiles()(
                    c.spot_cube(source, name, units, source.shape[-1], dims, scal),
                    percentiles=plist)
                want = ref.data.astype(float).reshape((len(plist), -1))
        else:
            d = dims[-1:]
            ref = ConvertProbabilitiesToPercentiles(skip_ecc_bounds=True)(
                c.spot_cube(want.astype(np.float32), name, units, source.shape[-1], d, scal),
                percentiles=plist)
            want = ref.data.astype(float).reshape((len(plist), -1))
        axis = "percentile"
        if len(plist) == 1:
            want = want[0]
    if lapse in ("fixed", "grid"):
        near = np.clip(dz, -50, 50)
        want = want + rates * near - 0.0065 * (dz - near)
    got = res.data
    o.check(res.coords("spot_index", dim_coords=True), "the sites are no longer a dimension: %s",
            [x.name() for x in res.coords()])
    if got.ndim == want.ndim + 1 and got.shape[0] == 1:
        got = got[0]
    o.close(got, want, "values", atol=3e-3)
    o.equal(res.dtype, np.float32, "type")
    if plist is not None and axis == "percentile":
        o.equal([float(x) for x in res.coord("percentile").points], [float(x) for x in plist],
                "percentiles")
        o.equal(res.name(), "air_temperature", "name")
    o.check("model_grid_hash" not in res.attributes, "the grid's hash is in the attributes")
    if not case["spot"]:
        title = case["title"] or "unknown"
        if case["title"] and lapse in ("fixed", "grid"):
            title = "Post-Processed " + title
        o.equal(res.attributes["title"], title, "title")
    ids = res.coord("met_office_site_id")
    o.equal(res.coord_dims(ids), (res.ndim - 1,), "dimension of the ids")
    for x in scal:
        o.same_coord(res.coord(x.name()), x)
    o.label(lead, case["spot"], lapse, "percentiles" if plist else None, unknown and "unknown",
            n == 1 and "one site")
    return len(set(np.ravel(source))) > 1


SUBS = {"extract": Sub(gen_extract, run_extract, 3), "lapse": Sub(gen_lapse, run_lapse, 2),
        "height": Sub(gen_height, run_height, 2), "chain": Sub(gen_chain, run_chain, 3)}
