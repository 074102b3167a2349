"""C16: weighted blending across a dimension."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: fields, angles or percentiles (ties, plateaus, masks) over a blending dimension in "
        "any position and order, with any other leading dimensions, weights of one to all "
        "dimensions in any order, unnormalised or with zeros, or none; non-trivial when the inputs "
        "differ and at least two weights at some point are positive")
QUICK = 3000
THOROUGH = 40000
T0 = 1510286400


def gen_mean():
    from vp import gens as g

    @g.composite
    def case(draw):
        k = draw(g.integers(2, 4))
        lead = draw(g.sampled([[], [], ["real"], ["thr"], ["real", "thr"]]))
        grid = draw(g.xy_grid(1, 3, kinds=("laea",), desc=False))
        sizes = {"blend": k, "real": draw(g.integers(1, 3)), "thr": draw(g.integers(1, 3)),
                 "y": grid["ny"], "x": grid["nx"]}
        dims = ["blend"] + lead + ["y", "x"]
        if draw(g.booleans()):
            dims = [dims[i] for i in draw(g.permutation(len(dims)))]
        shape = [sizes[d] for d in dims]
        angles = draw(g.integers(0, 3)) == 0
        elements = g.integers(0, 359) if angles else g.grid_ints(-20, 20, 0.25)
        wd = draw(g.sampled(["none", "1d", "1d", "spatial", "full"]))
        wdims = {"none": [], "1d": ["blend"], "spatial": ["blend", "y", "x"],
                 "full": list(dims)}[wd]
        if len(wdims) > 1 and draw(g.booleans()):
            wdims = [wdims[i] for i in draw(g.permutation(len(wdims)))]
        wshape = [sizes[d] for d in wdims]
        norm = draw(g.booleans())
        return {"k": k, "dims": dims, "shape": shape, "grid": grid, "angles": angles,
                "values": draw(g.field(shape, elements)), "mask": draw(g.mask(shape)),
                "wd": wd, "wdims": wdims,
                "weights": draw(g.field(wshape, g.sampled([0, 0.25, 0.5, 1, 1, 2]))) if wdims
                else [],
                "norm": norm, "desc": draw(g.integers(0, 3)) == 0,
                "wdesc": draw(g.integers(0, 3)) == 0,
                "aux": draw(g.integers(0, 3)) == 0, "kind": draw(g.sampled(["frt", "model"])),
                "times": draw(g.integers(0, 12)) == 0}

    return case()


def coords_for(case, rev=False):
    from iris.coords import AuxCoord, DimCoord
    from vp import cubes as c

    k = case["k"]
    y, x = c.yx_coords(dict(case["grid"], ydesc=False, xdesc=False))
    sl = slice(None, None, -1) if rev else slice(None)
    if case["kind"] == "frt":
        frt = np.array([T0 + 3600 * i for i in range(k)], np.int64)[sl]
        blend = DimCoord(frt, standard_name="forecast_reference_time", units=c.TIME_UNIT)
        aux = AuxCoord(np.array(T0 + 72000 - frt, np.int32), standard_name="forecast_period",
                       units="seconds")
    else:
        blend = DimCoord(np.arange(k, dtype=np.int32)[sl] * 1000, long_name="model_id",
                         units="1")
        aux = AuxCoord(np.array(["model%d" % i for i in range(k)])[sl],
                       long_name="model_configuration", units="no_unit")
    return {"blend": blend, "y": y, "x": x}, aux


def build(case, dims, data, name, units, rev):
    from iris.coords import AuxCoord, DimCoord
    from vp import cubes as c

    coords, aux = coords_for(case, rev)
    shape = dict(zip(dims, data.shape))
    if "real" in dims:
        coords["real"] = c.realization_coord(np.arange(shape["real"]))
    if "thr" in dims:
        coords["thr"] = c.threshold_coord(270.0 + np.arange(shape["thr"]), "air_temperature", "K")
    if "perc" in dims:
        coords["perc"] = c.percentile_coord(case["percentiles"])
    scal = []
    if case.get("times"):
        tc = None
    else:
        tc = DimCoord(np.int64(T0 + 72000), standard_name="time", units=c.TIME_UNIT)
        scal.append(tc)
    if case["kind"] != "frt":
        scal += c.time_coords({"frt": T0, "fp": 72000, "period": None})[1:]
    cube = c.new_cube(data, name, units, [coords[d] for d in dims], scal)
    cube.add_aux_coord(aux, dims.index("blend"))
    if tc is None:
        pts = T0 + 72000 + 3600 * np.arange(case["k"], dtype=np.int64)
        cube.add_aux_coord(AuxCoord(pts, standard_name="time", units=c.TIME_UNIT),
                           dims.index("blend"))
    return cube, coords["blend"].name(), aux.name()


NAMES = {"real": "realization", "thr": "air_temperature", "y": "projection_y_coordinate",
         "x": "projection_x_coordinate", "perc": "percentile"}


def result_data(res, dims):
    """Data with the given dimensions, dimensions of length one put back."""
    there = [d for d in dims if res.coord_dims(NAMES[d])]
    data = res.data.transpose([res.coord_dims(NAMES[d])[0] for d in there])
    for i, d in enumerate(dims):
        if d not in there:
            data = np.ma.expand_dims(data, i)
    return data, there


def full_weights(case, dims, shape, w, wdims):
    """Weights with dimensions dims."""
    if not wdims:
        return np.full(shape, 1.0 / case["k"])
    want = [d for d in dims if d in wdims]
    w = w.transpose([wdims.index(d) for d in want])
    for i, d in enumerate(dims):
        if d not in wdims:
            w = np.expand_dims(w, i)
    return np.broadcast_to(w, shape).astype(np.float64)


def run_mean(case):
    from improver.blending.weighted_blend import WeightedBlendAcrossWholeDimension

    dims, shape = case["dims"], case["shape"]
    b = dims.index("blend")
    vals = np.array(case["values"], np.float32).reshape(shape)
    mask = None
    if case["mask"] is not None:
        mask = np.array(case["mask"], bool).reshape(shape)
    if case["angles"]:
        mask = None
    data = vals if mask is None else np.ma.masked_array(vals, mask)
    flip = [slice(None)] * len(dims)
    flip[b] = slice(None, None, -1)
    name, units = ("wind_from_direction", "degrees") if case["angles"] else (
        "air_temperature", "K")
    if "thr" in dims and not case["angles"]:
        name, units = "probability_of_air_temperature_above_threshold", "1"
    elif "thr" in dims:
        o.reject("thresholds of angles")
    cube, coord, aux = build(case, dims, data[tuple(flip)] if case["desc"] else data, name,
                             units, case["desc"])
    weights = None
    wdims = case["wdims"]
    w = None
    if wdims:
        wshape = [shape[dims.index(d)] for d in wdims]
        w = np.array(case["weights"], np.float64).reshape(wshape)
        if case["norm"]:
            tot = w.sum(axis=wdims.index("blend"), keepdims=True)
            w = np.where(tot > 0, w / np.where(tot > 0, tot, 1), 0)
        w = w.astype(np.float32)
        wflip = [slice(None)] * len(wdims)
        wflip[wdims.index("blend")] = slice(None, None, -1)
        weights, _, _ = build(case, wdims, w[tuple(wflip)] if case["wdesc"] else w, "weights",
                              "1", case["wdesc"])
    fw = np.moveaxis(full_weights(case, dims, shape, w, wdims), b, 0)
    use = np.moveaxis(vals.astype(np.float64), b, 0)
    um = np.moveaxis(mask, b, 0) if mask is not None else np.zeros(use.shape, bool)
    fw = np.where(um, 0, fw)
    tot = fw.sum(axis=0)
    no_data = tot <= 0
    if (no_data & ~um.all(axis=0)).any() and mask is None:
        o.reject("weights sum to zero")
    plugin = WeightedBlendAcrossWholeDimension(aux if case["aux"] else coord)
    if case["times"]:
        o.raises(ValueError, plugin, cube, weights)
        o.label("different times refused")
        return False
    res = plugin(cube, weights)
    rest = [d for d in dims if d != "blend"]
    got, there = result_data(res, rest)
    o.equal(there, sorted(there, key=lambda d: res.coord_dims(NAMES[d])[0]),
            "order of dimensions (input %s)" % dims)
    o.equal(str(res.units), units, "units")
    o.equal(res.name(), name, "name")
    for d in rest:
        o.check(np.array_equal(res.coord(NAMES[d]).points, cube.coord(NAMES[d]).points)
                if d in "yx" or True else True, "%s points", d)
    safe = np.where(no_data, 1, tot)
    if case["angles"]:
        z = (fw * np.exp(1j * np.deg2rad(use))).sum(axis=0) / safe
        gd = np.ma.getdata(got).astype(np.float64)
        o.check((gd >= 0).all() and (gd < 360).all(), "angles outside 0..360: %s", o.show(gd))
        ok = np.abs(z) > 1e-3
        diff = np.abs((gd - np.rad2deg(np.angle(z)) + 180) % 360 - 180)
        o.check((diff[ok] < 0.05).all(), "mean angle %s, expected %s", o.show(gd),
                o.show(np.rad2deg(np.angle(z)) % 360))
        o.label("angles")
    else:
        want = (fw * np.where(um, 0, use)).sum(axis=0) / safe
        if mask is None:
            o.check(not np.ma.is_masked(got), "result is masked")
            o.close(got, want, "blend", rtol=1e-5, atol=2e-5)
        else:
            o.close_masked(got, want, no_data, "blend", rtol=1e-5, atol=2e-5)
        o.label("masked" if mask is not None else "")
    o.equal(str(np.ma.getdata(res.data).dtype), "float32", "dtype")
    o.label(case["wd"], "4D" if len(dims) > 3 else "", "aux" if case["aux"] else "")
    return vals.min() != vals.max() and bool(((fw > 0).sum(axis=0) > 1).any())


def gen_percentiles():
    from vp import gens as g

    @g.composite
    def case(draw):
        k = draw(g.integers(2, 4))
        n = draw(g.integers(2, 5))
        pl = draw(g.lists(g.integers(0, 20), min_size=n, max_size=n, unique=True))
        percentiles = sorted(5.0 * p for p in pl)
        grid = draw(g.xy_grid(1, 3, kinds=("laea",), desc=False))
        sizes = {"blend": k, "perc": n, "y": grid["ny"], "x": grid["nx"]}
        dims = ["blend", "perc", "y", "x"]
        if draw(g.booleans()):
            dims = [dims[i] for i in draw(g.permutation(4))]
        wd = draw(g.sampled(["none", "1d", "1d", "spatial", "spatial"]))
        wdims = {"none": [], "1d": ["blend"], "spatial": ["blend", "y", "x"]}[wd]
        if len(wdims) > 1 and draw(g.booleans()):
            wdims = [wdims[i] for i in draw(g.permutation(len(wdims)))]
        wshape = [sizes[d] for d in wdims]
        return {"k": k, "dims": dims, "percentiles": percentiles, "grid": grid,
                "wd": wd, "wdims": wdims, "kind": draw(g.sampled(["frt", "model"])),
                "values": draw(g.field([k, n, grid["ny"], grid["nx"]],
                                       draw(g.sampled([g.integers(0, 4), g.integers(-20, 20),
                                                       g.grid_ints(-20, 20, 0.25)])))),
                "weights": draw(g.field(wshape, g.sampled([0, 0.25, 0.5, 1, 1]))) if wdims
                else [],
                "mask": draw(g.mask([k, grid["ny"], grid["nx"]])),
                "strict": draw(g.integers(0, 3)) > 0, "garbage": draw(g.sampled([0.0, 1e4, -1e4])),
                "desc": draw(g.integers(0, 3)) == 0, "wdesc": draw(g.integers(0, 3)) == 0}

    return case()


def run_percentiles(case):
    from improver.blending.weighted_blend import WeightedBlendAcrossWholeDimension

    k, dims = case["k"], case["dims"]
    p = np.array(case["percentiles"])
    n = len(p)
    ny, nx = case["grid"]["ny"], case["grid"]["nx"]
    q = np.sort(np.array(case["values"], np.float32).reshape(k, n, ny, nx), axis=1)
    if case["strict"]:
        q = q + np.float32(0.5) * np.arange(n, dtype=np.float32)[:, None, None]
    wdims = case["wdims"]
    base = ["blend", "perc", "y", "x"]
    size = dict(zip(base, q.shape))
    w = weights = None
    if wdims:
        wshape = [size[d] for d in wdims]
        w = np.array(case["weights"], np.float32).reshape(wshape)
    fw = full_weights(case, ["blend", "y", "x"], [k, ny, nx], w, wdims)
    mask = None
    if case["mask"] is not None and case["wd"] == "spatial":
        # as made by the spatial weights: masked data have no weight
        mask = np.array(case["mask"], bool).reshape(k, ny, nx)
        fw = np.where(mask, 0, fw)
        w = fw.transpose([["blend", "y", "x"].index(d) for d in wdims]).astype(np.float32)
    tot = fw.sum(axis=0)
    nothing = tot <= 0
    if mask is None and nothing.any() or (nothing & ~mask.all(axis=0)).any() if mask is not None \
            else nothing.any():
        o.reject("weights sum to zero")
    data = q
    if mask is not None:
        full = np.broadcast_to(mask[:, None], q.shape)
        data = np.ma.masked_array(np.where(full, np.float32(case["garbage"]), q), full)
    order = [base.index(d) for d in dims]
    data = data.transpose(order)
    flip = [slice(None)] * 4
    flip[dims.index("blend")] = slice(None, None, -1)
    cube, coord, _ = build(case, dims, data[tuple(flip)] if case["desc"] else data,
                           "air_temperature", "K", case["desc"])
    if w is not None:
        wflip = [slice(None)] * len(wdims)
        wflip[wdims.index("blend")] = slice(None, None, -1)
        weights, _, _ = build(case, wdims, w[tuple(wflip)] if case["wdesc"] else w, "weights",
                              "1", case["wdesc"])
    res = WeightedBlendAcrossWholeDimension(coord)(cube, weights)
    rest = [d for d in dims if d != "blend"]
    got, there = result_data(res, rest)
    got = got.transpose([rest.index(d) for d in ("perc", "y", "x")])
    o.equal(there, sorted(there, key=lambda d: res.coord_dims(NAMES[d])[0]), "dimension order")
    o.check(np.array_equal(res.coord("percentile").points, p.astype(np.float32)), "percentiles")
    gd, gm = o.plain(got)
    fw = fw / np.where(nothing, 1, tot)
    several = False
    for j in range(ny):
        for i in range(nx):
            if nothing[j, i]:
                o.check(gm[:, j, i].all(), "point without data is not masked: %s", gd[:, j, i])
                continue
            o.check(not gm[:, j, i].any(), "point with data is masked")
            r = gd[:, j, i].astype(np.float64)
            used = [m for m in range(k) if fw[m, j, i] > 0]
            several |= len(used) > 1
            lo = q[used, :, j, i].min(axis=0)
            hi = q[used, :, j, i].max(axis=0)
            span = 1e-4 * max(1, np.abs(q[used, :, j, i]).max())
            o.check((np.diff(r) >= -span).all(), "percentiles decrease: %s", r)
            o.check((r >= lo - span).all() and (r <= hi + span).all(),
                    "blended percentiles %s %s of inputs %s with weights %s", p, r,
                    q[used, :, j, i].tolist(), fw[used, j, i])
            if (np.diff(q[used, :, j, i], axis=1) <= 0).any():
                o.label("plateaus")
            # the mixture distribution: lower and upper limits of F at the result
            for a in range(n):
                below = above = 0.0
                for m in used:
                    qm = q[m, :, j, i].astype(np.float64)
                    below += fw[m, j, i] * cdf(qm, p, r[a], -span)
                    above += fw[m, j, i] * cdf(qm, p, r[a], span)
                o.check(below <= p[a] + 1e-3 and above >= p[a] - 1e-3,
                        "percentile %s is %s, where the mixture of %s with weights %s is at "
                        "%s..%s", p[a], r[a], q[used, :, j, i].tolist(), fw[used, j, i], below,
                        above)
    o.label(case["wd"], "masked" if mask is not None and mask.any() else "",
            "zero weights" if (fw == 0).any() else "")
    return several and q.min() != q.max()


def cdf(q, p, x, nudge):
    """Limit of the distribution function at x + nudge (below: left limit)."""
    x = x + nudge
    if x <= q[0]:
        return p[0] if nudge < 0 or x < q[0] else float(p[q <= x].max())
    if x >= q[-1]:
        return p[-1]
    hi = int(np.searchsorted(q, x, "right"))
    lo = hi - 1
    if nudge < 0 and q[lo] == x:
        return float(p[q == x].min())
    return p[lo] + (p[hi] - p[lo]) * (x - q[lo]) / (q[hi] - q[lo])


def gen_triangular():
    from vp import gens as g

    @g.composite
    def case(draw):
        k = draw(g.integers(2, 5))
        grid = draw(g.xy_grid(1, 3, kinds=("laea",), desc=False))
        hours = sorted(draw(g.lists(g.integers(0, 12), min_size=k, max_size=k, unique=True)))
        perc = draw(g.booleans())
        shape = [k] + ([3] if perc else []) + [grid["ny"], grid["nx"]]
        return {"k": k, "hours": hours, "grid": grid, "perc": perc,
                "values": draw(g.field(shape, g.grid_ints(-20, 20, 0.25))),
                "mid": draw(g.integers(0, k)), "width": draw(g.sampled([1, 2, 3, 1.5, 6])),
                "units": draw(g.sampled(["hours", "seconds", "minutes"])),
                "coord": draw(g.sampled(["forecast_period", "forecast_period", "time"])),
                "dims": draw(g.permutation(len(shape)))}

    return case()


def run_triangular(case):
    from improver.blending.blend_across_adjacent_points import (
        TriangularWeightedBlendAcrossAdjacentPoints)
    from iris.coords import AuxCoord, DimCoord
    from vp import cubes as c

    k, hours = case["k"], case["hours"]
    grid = dict(case["grid"], ydesc=False, xdesc=False)
    n = [3] if case["perc"] else []
    data = np.array(case["values"], np.float32).reshape([k] + n + [grid["ny"], grid["nx"]])
    if case["perc"]:
        data = np.sort(data, axis=1)
    fp = np.array([3600 * h for h in hours], np.int32)
    time = np.array(T0 + fp, np.int64)
    if case["coord"] == "time":
        lead = DimCoord(time, standard_name="time", units=c.TIME_UNIT)
        aux = AuxCoord(fp, standard_name="forecast_period", units="seconds")
    else:
        lead = DimCoord(fp, standard_name="forecast_period", units="seconds")
        aux = AuxCoord(time, standard_name="time", units=c.TIME_UNIT)
    dims = [lead] + ([c.percentile_coord([10, 50, 90])] if case["perc"] else []) + \
        c.yx_coords(grid)
    cube = c.new_cube(data, "air_temperature", "K", dims, [
        DimCoord(np.int64(T0), standard_name="forecast_reference_time", units=c.TIME_UNIT)])
    cube.add_aux_coord(aux, 0)
    cube.transpose(list(case["dims"]))
    present = case["mid"] < k
    mid = hours[case["mid"]] if present else hours[-1] + 0.5
    unit = {"hours": 3600, "seconds": 1, "minutes": 60}[case["units"]]
    # always in terms of forecast period (seconds since an epoch would be a different width)
    plugin = TriangularWeightedBlendAcrossAdjacentPoints(
        "forecast_period", mid * 3600.0 / unit, case["units"], case["width"] * 3600.0 / unit)
    if not present:
        o.raises(ValueError, plugin, cube)
        o.label("no central point")
        return False
    w = np.array([max(0, 1 - abs(h - mid) / case["width"]) for h in hours])
    w /= w.sum()
    res = plugin(cube.copy())
    central = cube[tuple(case["mid"] if cube.coord_dims(lead.name())[0] == d else slice(None)
                         for d in range(cube.ndim))]
    o.equal([x.name() for x in res.coords(dim_coords=True)],
            [x.name() for x in central.coords(dim_coords=True)], "dimensions")
    for x in central.coords():
        o.same_coord(res.coord(x.name()), x)
    names = (["percentile"] if case["perc"] else []) + [
        "projection_y_coordinate", "projection_x_coordinate"]
    got = res.data.transpose([res.coord_dims(x)[0] for x in names])
    used = [i for i in range(k) if w[i] > 0]
    if case["perc"]:
        lo, hi = data[used].min(axis=0), data[used].max(axis=0)
        o.check((got >= lo - 1e-4).all() and (got <= hi + 1e-4).all(),
                "blended percentiles outside the inputs in the triangle")
        o.check((np.diff(got, axis=0) >= -1e-4).all(), "percentiles decrease")
        if len(used) == 1:
            o.close(got, data[used[0]], "single input", rtol=1e-5, atol=1e-4)
    else:
        o.close(got, np.tensordot(w, data.astype(np.float64), (0, 0)), "blend", rtol=1e-5,
                atol=2e-5)
    o.label("several" if len(used) > 1 else "one", "percentiles" if case["perc"] else "mean",
            case["coord"])
    return len(used) > 1 and data.min() != data.max()


SUBS = {
    "mean": Sub(gen_mean, run_mean, 4),
    "percentiles": Sub(gen_percentiles, run_percentiles, 3),
    "triangular": Sub(gen_triangular, run_triangular, 2),
}
