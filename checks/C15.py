"""C15: blending weights."""
import numpy as np

from vp import oracle as o
from vp import refs
from vp.registry import Sub

RULE = ("cases: cubes with a blending dimension (cycles, models or times) in any position and any "
        "order of its points, or scalar, weights parameters in any units, weights dictionaries "
        "with any number of points, and masks for spatial weights; non-trivial when there is more "
        "than one slice to blend and the weights are not all equal")
QUICK = 3000
THOROUGH = 40000


def blend_cube(case, data=None, mask=None):
    """Cube with dimensions [blend,] + other dims in a generated order."""
    from iris.coords import AuxCoord, DimCoord
    from vp import cubes as c

    k = len(case["points"])
    grid = dict(case["grid"], ydesc=False, xdesc=False)
    shape = [k] + ([case["nr"]] if case["nr"] else []) + [grid["ny"], grid["nx"]]
    names = ["blend", "real", "y", "x"]
    if data is None:
        data = np.zeros(shape, np.float32)
    t0 = 1510286400 + 48 * 3600
    pts = [int(p) for p in case["points"]]
    y, x = c.yx_coords(grid)
    dims = []
    aux = []
    kind = case["kind"]
    if kind == "frt":      # points are hours before t0: descending fp when sorted by frt
        frt = np.array([t0 - 3600 * p for p in pts], np.int64)
        lead = DimCoord(frt, standard_name="forecast_reference_time", units=c.TIME_UNIT)
        aux.append(AuxCoord(np.array([3600 * p for p in pts], np.int32),
                            standard_name="forecast_period", units="seconds"))
        scal = [DimCoord(np.int64(t0), standard_name="time", units=c.TIME_UNIT)]
    elif kind == "fp":     # time varies, one cycle
        lead = DimCoord(np.array([3600 * p for p in pts], np.int32),
                        standard_name="forecast_period", units="seconds")
        aux.append(AuxCoord(np.array([t0 + 3600 * p for p in pts], np.int64),
                            standard_name="time", units=c.TIME_UNIT))
        scal = [DimCoord(np.int64(t0), standard_name="forecast_reference_time",
                         units=c.TIME_UNIT)]
    else:
        lead = DimCoord(np.array([1000 * i for i in range(k)], np.int32), long_name="model_id",
                        units="1")
        aux.append(AuxCoord(np.array(case["names"][:k]), long_name="model_configuration",
                            units="no_unit"))
        scal = c.time_coords({"frt": t0, "fp": 3600 * 6, "period": None})
    dims = [lead, c.realization_coord(np.arange(case["nr"])) if case["nr"] else None, y, x]
    if not case["nr"]:
        dims = [lead, y, x]
        names = ["blend", "y", "x"]
    cube = c.new_cube(data, "air_temperature", "K", dims, scal)
    for a in aux:
        cube.add_aux_coord(a, 0)
    order = [n for n in case["dims"] if n in names]
    cube.transpose([names.index(n) for n in order])
    return cube, lead.name()


def gen_base(kinds=("frt", "fp", "model"), nmin=1):
    from vp import gens as g

    @g.composite
    def case(draw):
        k = draw(g.integers(nmin, 4))
        pts = sorted(draw(g.lists(g.integers(1, 30), min_size=k, max_size=k, unique=True)))
        if draw(g.integers(0, 3)) == 0:
            pts = pts[::-1]
        nr = draw(g.sampled([0, 0, 2]))
        dims = ["blend", "real", "y", "x"]
        if draw(g.integers(0, 2)) == 0:
            dims = list(draw(g.permutation(4)))
            dims = [["blend", "real", "y", "x"][i] for i in dims]
        return {"points": pts, "nr": nr, "dims": dims, "kind": draw(g.sampled(list(kinds))),
                "grid": draw(g.xy_grid(1, 3, kinds=("laea",), desc=False)),
                "names": draw(g.sampled([["uk_det", "uk_ens", "nowcast", "gl_ens"],
                                         ["b", "a", "d", "c"]]))}

    return case()


def gen_default():
    from vp import gens as g

    @g.composite
    def case(draw):
        b = draw(gen_base())
        b["method"] = draw(g.sampled(["linear", "nonlinear", "triangular"]))
        b["y0"] = draw(g.sampled([0.0, 1.0, 2.5, 20.0, -1.0]))
        b["yn"] = draw(g.sampled([0.0, 1.0, 4.0, 2.5, -2.0]))
        b["cval"] = draw(g.sampled([1.0, 0.85, 0.5, 0.1, 0.0, 1.5]))
        b["inverse"] = draw(g.booleans())
        b["width"] = draw(g.sampled([1, 2, 3, 6, 10, 1.5]))
        b["mid"] = draw(g.integers(0, 10))
        b["units"] = draw(g.sampled(["hours", "seconds", "minutes"]))
        return b

    return case()


def judge_weights(res, coord, want, cube, tol=2e-6):
    o.equal(res.name(), "weights", "name")
    o.equal(str(res.units), "1", "units of the weights")
    o.equal(dict(res.attributes or {}), {}, "attributes")
    got = np.ma.getdata(res.data).astype(np.float64)
    pts = res.coord(coord).points
    o.equal(sorted(pts.tolist()), sorted(cube.coord(coord).points.tolist()), "points")
    o.equal(got.shape, (len(pts),), "shape of the weights")
    for p, w in zip(pts.tolist(), got.tolist()):
        o.check(abs(w - want[p]) <= tol, "weight at %s %s is %s, expected %s", coord, p, w,
                want[p])
    o.check(abs(got.sum() - 1) < 1e-5, "weights sum to %s", got.sum())


def run_default(case):
    from improver.blending.weights import (
        ChooseDefaultWeightsLinear, ChooseDefaultWeightsNonLinear,
        ChooseDefaultWeightsTriangular)

    cube, coord = blend_cube(case)
    pts = cube.coord(coord).points.tolist()
    k = len(pts)
    before = o.snapshot(cube)
    if case["method"] == "linear":
        y0, yn = case["y0"], case["yn"]
        raw = [y0 + (yn - y0) * i / (k - 1.0) if k > 1 else 1.0 for i in range(k)]
        if y0 < 0:
            o.raises(ValueError, ChooseDefaultWeightsLinear, y0, yn)
            return False
        plugin = ChooseDefaultWeightsLinear(y0, yn)
        if k > 1 and (min(raw) < 0 or sum(raw) == 0):
            o.raises(ValueError, plugin, cube, coord)
            o.label("weights refused")
            return False
        res = plugin(cube, coord)
        want = dict(zip(pts, [r / sum(raw) for r in raw]))
        same = y0 == yn
    elif case["method"] == "nonlinear":
        cv = case["cval"]
        if not 0 < cv <= 1:
            o.raises(ValueError, ChooseDefaultWeightsNonLinear, cv)
            return False
        raw = [cv ** i for i in range(k)]
        res = ChooseDefaultWeightsNonLinear(cv)(cube, coord, inverse_ordering=case["inverse"])
        order = pts
        if case["inverse"]:   # documented: the highest value of the coordinate has most weight
            order = sorted(pts, reverse=True)
            o.check(all(np.diff(res.coord(coord).points) > 0),
                    "weights not in ascending order: %s", res.coord(coord).points)
        want = dict(zip(order, [r / sum(raw) for r in raw]))
        same = cv == 1
    else:
        unit = {"hours": 3600.0, "seconds": 1.0, "minutes": 60.0}[case["units"]]
        if case["kind"] != "fp":
            o.reject("triangular weights over forecast period")
        mid_s = pts[case["mid"] % k]
        width_s = case["width"] * 3600.0
        plugin = ChooseDefaultWeightsTriangular(width_s / unit, units=case["units"])
        res = plugin(cube, coord, mid_s / unit)
        raw = [max(0.0, 1 - abs(p - mid_s) / width_s) for p in pts]
        want = dict(zip(pts, [r / sum(raw) for r in raw]))
        same = False
        o.label("several in the triangle" if sum(r > 0 for r in raw) > 1 else "one")
    judge_weights(res, coord, want, cube)
    o.unchanged(before, cube)
    o.label(case["method"], case["kind"])
    return k > 1 and not same


def gen_dict():
    from vp import gens as g

    @g.composite
    def case(draw):
        b = draw(gen_base(kinds=("model",)))
        k = len(b["points"])
        conf = []
        for _ in range(k):
            n = draw(g.integers(2, 4))
            hours = sorted(draw(g.lists(g.integers(0, 24), min_size=n, max_size=n, unique=True)))
            if draw(g.integers(0, 5)) == 0:
                hours = [h + 0.5 for h in hours]
            wts = draw(g.fixed(n, g.sampled([0, 0, 1, 0.5, 0.25, 2])))
            if draw(g.integers(0, 9)) == 0:
                wts[draw(g.integers(0, n - 1))] = -0.25
            conf.append({"hours": hours, "weights": wts, "units": draw(g.sampled(
                ["hours", "seconds", None, "minutes"]))})
        b["conf"] = conf
        b["fps"] = draw(g.lists(g.integers(0, 26), min_size=1, max_size=3, unique=True))
        b["as_list"] = draw(g.booleans())
        b["spot"] = draw(g.integers(0, 3)) == 0
        b["shuffle"] = draw(g.booleans())
        return b

    return case()


def run_dict(case):
    import iris
    from improver.blending.weights import ChooseWeightsLinear
    from iris.coords import AuxCoord, DimCoord
    from vp import cubes as c

    k = len(case["points"])
    fps = sorted(case["fps"])
    names = case["names"][:k]
    grid = case["grid"]
    t0 = 1510286400
    cubes = iris.cube.CubeList()
    nf = len(fps)
    for i in range(k):
        lead = []
        if nf > 1:
            lead.append(DimCoord(np.array([t0 + 3600 * h for h in fps], np.int64),
                                 standard_name="time", units=c.TIME_UNIT))
        if case["nr"]:
            lead.insert(0 if case["shuffle"] else len(lead),
                        c.realization_coord(np.arange(case["nr"])))
        fp = AuxCoord(np.array([3600 * h for h in fps], np.int32),
                      standard_name="forecast_period", units="seconds")
        scal = c.time_coords({"frt": t0, "fp": 3600 * fps[0], "period": None})
        scal = scal if nf == 1 else [scal[1]]
        scal += [DimCoord(np.int32(1000 * i), long_name="model_id", units="1"),
                 AuxCoord(names[i], long_name="model_configuration", units="no_unit")]
        shape = [len(d.points) for d in lead]
        if case["spot"]:
            cube = c.spot_cube(np.full(shape + [3], 280.0, np.float32), "air_temperature", "K", 3,
                               lead=lead, scalars=scal)
        else:
            cube = c.new_cube(np.full(shape + [grid["ny"], grid["nx"]], 280.0, np.float32),
                              "air_temperature", "K", lead + c.yx_coords(grid), scal)
        if nf > 1:
            cube.add_aux_coord(fp, cube.coord_dims("time"))
        cubes.append(cube)
    config = {}
    table = []
    for name, e in zip(names, case["conf"]):
        factor = {"hours": 1, "seconds": 3600, None: 3600, "minutes": 60}[e["units"]]
        config[name] = {"forecast_period": [h * factor for h in e["hours"]],
                        "weights": list(e["weights"])}
        if e["units"]:
            config[name]["units"] = e["units"]
        table.append([float(np.interp(h, e["hours"], e["weights"])) for h in fps])
    table = np.array(table)
    plugin = ChooseWeightsLinear("forecast_period", config)
    arg = cubes if case["as_list"] else cubes.merge_cube()
    if (table < 0).any():
        o.raises(ValueError, plugin, arg)
        o.label("negative weights refused")
        return True
    if (table.sum(axis=0) <= 0).any():
        o.raises(ValueError, plugin, arg)
        o.label("zero weights refused")
        return False
    res = plugin(arg)
    o.equal(res.name(), "weights", "name")
    o.equal(str(res.units), "1", "units")
    got = np.ma.getdata(res.data)
    want = table / table.sum(axis=0)
    md = res.coord_dims("model_id")
    fd = res.coord_dims("forecast_period")
    o.equal(got.ndim, len(md) + len(fd), "dimensions of the weights (%s)" % (got.shape,))
    if k > 1:
        o.equal(res.coord("model_configuration").points.tolist(), names, "models")
        if nf > 1:
            got = got.transpose(list(md) + list(fd))
    got = got.reshape(k, nf)
    if nf > 1:
        o.equal((res.coord("forecast_period").points // 3600).tolist(), fps, "periods")
    o.close(got, want, "weights", rtol=1e-5, atol=1e-6)
    o.label("list" if case["as_list"] else "merged", "spot" if case["spot"] else "grid",
            "times" if nf > 1 else "one time")
    return k > 1 and len(np.unique(table)) > 1


def gen_spatial():
    from vp import gens as g

    @g.composite
    def case(draw):
        k = draw(g.integers(1, 4))
        ny, nx = draw(g.integers(1, 6)), draw(g.integers(1, 6))
        masks = []
        for _ in range(k):
            masks.append(draw(g.mask([ny, nx])) or [0] * (ny * nx))
        return {"k": k, "ny": ny, "nx": nx, "masks": masks, "nr": draw(g.sampled([0, 0, 2])),
                "weights": draw(g.fixed(k, g.sampled([0.25, 0.5, 1.0, 0.1, 0.0]))),
                "fuzzy": draw(g.sampled([1, 2, 3, 1.5, 2.5, 10])),
                "first": draw(g.booleans()), "aux": draw(g.booleans()),
                "order": draw(g.permutation(4)), "shuffle": draw(g.integers(0, 2)) == 0,
                "vary": draw(g.integers(0, 6)) == 0,
                "desc": draw(g.integers(0, 4)) == 0}

    return case()


def run_spatial(case):
    from improver.blending.spatial_weights import SpatiallyVaryingWeightsFromMask
    from iris.coords import AuxCoord, DimCoord
    from vp import cubes as c

    k, ny, nx, nr = case["k"], case["ny"], case["nx"], case["nr"]
    mask = np.array(case["masks"], bool).reshape(k, ny, nx)
    if k == 1:
        o.reject("one slice has no blend dimension in practice")
    t0 = 1510286400
    grid = {"kind": "laea", "ny": ny, "nx": nx, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}
    frt = np.array([t0 + 3600 * i for i in range(k)], np.int64)
    w = np.array(case["weights"], np.float32)
    if case["desc"]:
        frt = frt[::-1]
    lead = DimCoord(frt, standard_name="forecast_reference_time", units=c.TIME_UNIT)
    fp = AuxCoord(np.array(t0 + 36000 - frt, np.int32), standard_name="forecast_period",
                  units="seconds")
    time = DimCoord(np.int64(t0 + 36000), standard_name="time", units=c.TIME_UNIT)
    m = mask
    dims = [lead] + c.yx_coords(grid)
    varies = False
    if nr:
        m = np.stack([mask] * nr, axis=1)
        dims.insert(1, c.realization_coord(range(nr)))
        if case["vary"] and mask.any():
            m[0, 1, 0, 0] = ~m[0, 1, 0, 0]
            varies = True
    data = np.ma.masked_array(np.zeros(m.shape, np.float32), m)
    cube = c.new_cube(data, "air_temperature", "K", dims, [time])
    cube.add_aux_coord(fp, 0)
    if nr and case["first"]:
        cube.transpose([1, 0, 2, 3])
    if case["shuffle"]:
        cube.transpose([i for i in case["order"] if i < cube.ndim])
    wc = c.new_cube(w, "weights", "1", [lead.copy()], [time])
    wc.add_aux_coord(fp.copy(), 0)
    before, wbefore = o.snapshot(cube), o.snapshot(wc)
    plugin = SpatiallyVaryingWeightsFromMask(
        "forecast_period" if case["aux"] else "forecast_reference_time",
        fuzzy_length=case["fuzzy"])
    if varies:
        if not mask.any():
            o.reject("no mask")
        o.raises(ValueError, plugin, cube, wc)
        o.label("mask varying over realizations refused")
        return False
    res = plugin(cube, wc)
    o.unchanged(before, cube)
    o.unchanged(wbefore, wc, "weights")
    order = [res.coord_dims(n)[0] for n in (
        "forecast_reference_time", "projection_y_coordinate", "projection_x_coordinate")]
    o.equal(res.ndim, 3, "dimensions")
    got = np.ma.getdata(res.data).transpose(order).astype(np.float64)
    rp = res.coord("forecast_reference_time").points.tolist()
    got = got[[rp.index(p) for p in frt.tolist()]]
    if not mask.any():
        o.close(got, np.broadcast_to(w[:, None, None], got.shape), "weights without masks")
        return False
    want, changed, free = refs.spatial_weights(mask, w, case["fuzzy"])
    o.check((got[mask] == 0).all(), "masked points have weight: %s", o.show(got))
    o.check((got >= -1e-6).all() and (got <= 1 + 1e-5).all(), "weights outside 0..1: %s",
            o.show(got))
    sums = got.sum(axis=0)
    has_free = free > 1e-9
    o.check((np.abs(sums[has_free] - 1) < 1e-5).all(), "weights sum to %s", o.show(sums))
    o.close(got, want, "spatial weights", rtol=1e-4, atol=2e-6)
    o.label("all masked somewhere" if mask.all(axis=0).any() else "", "realizations" if nr else "",
            "faded" if changed.any() else "")
    return bool(changed.any())


SUBS = {
    "default": Sub(gen_default, run_default, 3),
    "dictionary": Sub(gen_dict, run_dict, 3),
    "spatial": Sub(gen_spatial, run_spatial, 3),
}
