"""C38: forecasts held to a reference, accumulations from rates, times, and the texture of fields."""
import datetime

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: forecasts and references of any layout, units and mask under one or two bounds, parts "
        "with zero totals normalised to a total, rates over periods of differing length in any layout, "
        "times on and off the available ones, binary fields with edges in ensembles; non-trivial when "
        "values are changed, selected or differ")
QUICK = 2000
THOROUGH = 50000


def dims(cube):
    return [x.name() for x in cube.coords(dim_coords=True)]


# ---------------------------------------------------------------- reference forecasts
def gen_enforce():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization", "time")))
        n = g.size(lay["inner"])
        return {"lay": lay, "f": draw(g.fixed(n, g.integers(-20, 40))), "r": draw(g.fixed(n, g.integers(-20, 40))),
                "mask": draw(g.one_of(g.just(None), g.just(None), g.fixed(n, g.integers(0, 1)))),
                "how": draw(g.sampled([">=", "<=", "two", "two rev"])), "add": [draw(g.integers(-5, 5)) for _ in range(2)],
                "mul": [draw(g.sampled([1, 1, 0.5, 1.1, 2, -1])) for _ in range(2)],
                "units": draw(g.sampled(["m s-1", "m s-1", "km h-1", "knots"])),
                "prob": draw(g.booleans()), "calls": draw(g.integers(1, 2)),
                "warn": draw(g.sampled([None, None, 3.5, 10.5])),
                "bad": draw(g.sampled([None] * 12 + ["units", "mixed", "operator", "same"]))}

    return case()


def run_enforce(case):
    import warnings

    from improver.utilities.forecast_reference_enforcement import EnforceConsistentForecasts
    from vp import cubes as c

    lay, bad, how = case["lay"], case["bad"], case["how"]
    shape = lay["inner"]
    prob = case["prob"]
    f = np.array(case["f"], float).reshape(shape) + 0.25
    r = np.array(case["r"], float).reshape(shape)
    if prob:
        f, r = (f + 21) / 62, (r + 21) / 62
    mask = np.zeros(shape, bool) if case["mask"] is None else np.array(case["mask"], bool).reshape(shape)

    def make(a, name, units, masked=False):
        a = a.astype(np.float32)
        if masked and case["mask"] is not None:
            a = np.ma.MaskedArray(a, mask)
        main = c.threshold_coord([np.float32(3)], name, "m s-1")[0] if prob else None
        return c.layout_cube(lay, a, "probability_of_%s_above_threshold" % name if prob else name,
                             "1" if prob else units, main)

    # (the reference in its own units)
    per = {"m s-1": 1.0, "km h-1": 3.6, "knots": 3600 / 1852}[case["units"]]
    units = "m s-1" if prob else case["units"]
    forecast = make(f, "wind_speed_of_gust", "m s-1", True)
    ref = make(r if prob else r * per, "wind_speed", units)
    add = [float(x) for x in case["add"]]
    mul = [float(x) for x in case["mul"]]
    op = {"two": [">=", "<="], "two rev": ["<=", ">="]}.get(how, how)
    if prob and how in ("two", "two rev"):
        # linear functions do not apply to probabilities
        o.raises(ValueError, EnforceConsistentForecasts(add, mul, op), forecast, ref)
        return True
    if prob:
        if case["bad"] == "mixed" and (add[0] != 0 or mul[0] != 1):
            o.raises(ValueError, EnforceConsistentForecasts(add[0], mul[0], op), forecast, ref)
            return True
        add, mul, bad = [0.0, 0.0], [1.0, 1.0], None
    if bad == "units":
        ref.units = "K"
        o.raises(ValueError, EnforceConsistentForecasts(), forecast, ref)
        return True
    if bad == "mixed":
        o.raises(ValueError, EnforceConsistentForecasts(add, mul[0], op), forecast, ref)
        o.raises(ValueError, EnforceConsistentForecasts(add[0], mul[0], [">=", "<="]), forecast, ref)
        return True
    if bad == "operator":
        o.raises(ValueError, EnforceConsistentForecasts(comparison_operator=">"), forecast, ref)
        return True
    if bad == "same":
        o.raises(ValueError, EnforceConsistentForecasts(add, mul, [">=", ">="]), forecast, ref)
        return True
    bounds = [m * r + s for m, s in zip(mul, add)]
    kw = {"diff_for_warning": case["warn"]} if case["warn"] and not prob else {}
    if how in ("two", "two rev"):
        lo, hi = bounds if how == "two" else bounds[::-1]
        plugin = EnforceConsistentForecasts(add, mul, op, **kw)
        if (np.abs(lo - hi) < 1e-4).any() and not (lo > hi + 1e-4).any():
            o.reject("bounds equal within rounding")
        if (lo > hi).any():
            o.raises(ValueError, plugin, forecast, ref)
            return True
        want = np.minimum(np.maximum(f, lo), hi)
    else:
        plugin = EnforceConsistentForecasts(add[0], mul[0], op, **kw)
        want = np.maximum(f, bounds[0]) if how == ">=" else np.minimum(f, bounds[0])
    before = [o.snapshot(forecast), o.snapshot(ref)]
    for _ in range(case["calls"]):
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter("always")
            res = plugin(forecast, ref)
        o.unchanged(before[0], forecast)
        o.unchanged(before[1], ref)
    got = np.ma.asarray(c.aligned(res, lay))
    o.equal(np.ma.getmaskarray(got), mask, "masked points")
    got = np.ma.filled(got, 0).astype(float)
    o.close(np.where(mask, 0, got), np.where(mask, 0, want), "consistent forecast", rtol=1e-5, atol=1e-4)
    diff = np.abs(want - f)[~mask]
    if case["warn"] and not prob and diff.size and abs(diff.max() - case["warn"]) > 1e-3:
        o.equal(any("Inconsistency" in str(w.message) for w in said), bool(diff.max() > case["warn"]), "warning")
    o.equal((res.name(), str(res.units), res.dtype, dims(res)),
            (forecast.name(), str(forecast.units), np.dtype("f4"), dims(forecast)), "result")
    o.equal(dict(res.attributes), dict(forecast.attributes, title="Post-Processed " + forecast.attributes["title"]),
            "attributes")
    for x in forecast.coords():
        o.same_coord(res.coord(x.name()), x)
    o.label(how, "probability" if prob else case["units"])
    return bool(diff.size and diff.max() > 0)


# ---------------------------------------------------------------- parts of a total
def gen_normalise():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization", "time")))
        n = g.size(lay["inner"])
        k = draw(g.integers(1, 4))
        return {"lay": lay, "k": k, "v": [draw(g.fixed(n, g.sampled([0, 0, 1, 2, 5, 10]))) for _ in range(k)],
                "ref": draw(g.fixed(n, g.sampled([0, 0, 1, 3, 7, -2]))), "ignore": draw(g.booleans()),
                "fix": draw(g.booleans()), "mask": draw(g.one_of(g.just(None), g.fixed(n, g.integers(0, 1)))),
                "bad": draw(g.sampled([None] * 8 + ["grid", "dims", "order"]))}

    return case()


def run_normalise(case):
    from improver.utilities.forecast_reference_enforcement import normalise_to_reference
    from iris.cube import CubeList
    from vp import cubes as c

    lay, k, bad = case["lay"], case["k"], case["bad"]
    shape = lay["inner"]
    v = [np.array(x, float).reshape(shape) for x in case["v"]]
    ref = np.array(case["ref"], float).reshape(shape)
    total = sum(v)
    if case["fix"]:
        ref = np.where(total == 0, 0, ref)
    mask = np.zeros(shape, bool)
    cubes = []
    for i, a in enumerate(v):
        a = a.astype(np.float32)
        if i == 0 and case["mask"] is not None:
            mask = np.array(case["mask"], bool).reshape(shape)
            a = np.ma.MaskedArray(a, mask)
        cubes.append(c.layout_cube(lay, a, "part_%d" % i, "kg m-2", attributes={"part": str(i)}))
    rcube = c.layout_cube(lay, ref.astype(np.float32), "whole", "kg m-2")
    if k < 2:
        o.raises(ValueError, normalise_to_reference, CubeList(cubes), rcube)
        return True
    if bad == "grid":
        if lay["spot"]:
            o.reject("sites")
        rcube = c.layout_cube(dict(lay, grid=dict(lay["grid"], y0=lay["grid"]["y0"] + 1)), ref.astype(np.float32),
                              "whole", "kg m-2")
        o.raises(ValueError, normalise_to_reference, CubeList(cubes), rcube)
        return True
    if bad == "dims":
        cubes[-1] = next(cubes[-1].slices_over(dims(cubes[-1])[0]))
        o.raises(ValueError, normalise_to_reference, CubeList(cubes), rcube)
        return True
    if bad == "order":
        if len(dims(rcube)) < 2:
            o.reject("one dimension")
        if len({s for s in rcube.shape}) == 1 and rcube.shape[0] == 1:
            o.reject("one point")
        rcube.transpose()
        o.raises(ValueError, normalise_to_reference, CubeList(cubes), rcube)
        return True
    before = [o.snapshot(x) for x in cubes + [rcube]]
    clash = bool(((total == 0) & (ref != 0) & ~mask).any())
    if clash and not case["ignore"]:
        o.raises(ValueError, normalise_to_reference, CubeList(cubes), rcube)
        return True
    for _ in range(2):
        res = normalise_to_reference(CubeList(cubes), rcube, ignore_zero_total=case["ignore"])
        for x, y in zip(before, cubes + [rcube]):
            o.unchanged(x, y)
    tot = 0
    for q, a, x in zip(res, v, cubes):
        want = np.where(total != 0, ref * a / np.where(total > 0, total, 1), 0)
        got = np.ma.asarray(c.aligned(q, lay))
        o.equal(np.ma.getmaskarray(got), mask, "masked points")
        got = np.ma.filled(got, 0).astype(float)
        o.close(np.where(mask, 0, got), np.where(mask, 0, want), "share of " + x.name(), rtol=1e-5, atol=1e-5)
        tot = tot + got
        o.equal((q.name(), str(q.units), dict(q.attributes), dims(q)),
                (x.name(), str(x.units), dict(x.attributes), dims(x)), "result")
        for y in x.coords():
            o.same_coord(q.coord(y.name()), y)
    o.equal(len(res), k, "cubes")
    o.close(np.where(mask, 0, tot), np.where(mask | (total == 0), 0, ref), "total", rtol=1e-4, atol=1e-5)
    return bool((ref != total).any())


# ---------------------------------------------------------------- times
def gen_times():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("time", "time", "none")))
        n = g.size(lay["inner"])
        m = draw(g.integers(0, 2))
        return {"lay": lay, "m": m, "v": draw(g.fixed(n * max(m, 1), g.integers(0, 30))),
                "what": draw(g.sampled(["integrate", "integrate", "nearest", "nearest", "relabel", "convert"])),
                "lengths": [draw(g.sampled([600, 900, 3600, 10800])) for _ in range(3)],
                "mask": draw(g.one_of(g.just(None), g.fixed(n * max(m, 1), g.integers(0, 1)))),
                "cms": draw(g.lists(g.sampled(["mean time", "point realization", "max time"]), max_size=2, unique=True)),
                "name": draw(g.sampled([None, "rainfall_amount"])), "nobounds": draw(g.sampled([0, 0, 0, 1])),
                "off": draw(g.integers(-240, 240)), "pick": draw(g.integers(0, 2)), "allow": draw(g.sampled([0, 600, 1800, 7200])),
                "frt": draw(g.sampled([0, 0, 0, 1, 2])), "period": draw(g.sampled([None, 0, 1, 3, 24])),
                "when": draw(g.integers(0, 4 * 10 ** 6)), "seed": draw(g.integers(0, 10 ** 6))}

    return case()


def run_times(case):
    from improver.utilities import temporal as tm
    from iris.coords import CellMethod
    from vp import cubes as c

    lay, what, m = case["lay"], case["what"], case["m"]
    o.label(what)
    epoch = datetime.datetime(1970, 1, 1)
    if what == "convert":
        t = epoch + datetime.timedelta(minutes=case["when"] * 10)
        text = tm.datetime_to_cycletime(t)
        o.equal(text, "%04d%02d%02dT%02d%02dZ" % (t.year, t.month, t.day, t.hour, t.minute), "cycle time")
        o.equal(tm.cycletime_to_datetime(text), t, "time of the cycle")
        sec = case["when"] * 600
        import cftime
        got = tm.datetime_to_iris_time(t)
        o.equal((int(got), got.dtype), (sec, np.dtype("i8")), "seconds")
        cf = cftime.DatetimeGregorian(t.year, t.month, t.day, t.hour, t.minute, 0)
        o.equal(int(tm.datetime_to_iris_time(cf)), sec, "seconds of a cftime")
        o.close(np.array(float(tm.cycletime_to_number(text))), np.array(sec / 3600), "hours", rtol=1e-9, atol=1e-6)
        o.close(np.array(float(tm.cycletime_to_number(text, time_unit="minutes since 1970-01-01 00:00:00"))),
                np.array(sec / 60), "minutes", rtol=1e-9, atol=1e-5)
        for unit in (None, "hours since 1970-01-01 00:00:00"):
            tc = c.time_coords({"frt": sec, "fp": 5400, "period": 1800})[0]
            if unit:
                tc.convert_units(unit)
            keep = tc.copy()
            pts = tm.iris_time_to_datetime(tc)
            bds = tm.iris_time_to_datetime(tc, point_or_bound="bound")
            o.same_coord(tc, keep)
            want = t + datetime.timedelta(seconds=5400)
            o.equal([int(tm.datetime_to_iris_time(x)) for x in pts], [sec + 5400], "points")
            o.equal([[int(tm.datetime_to_iris_time(y)) for y in x] for x in bds], [[sec + 3600, sec + 5400]], "bounds")
            _ = want
        return True
    shape = ([m] if m else []) + lay["inner"]
    a = np.array(case["v"], float).reshape(shape)
    mask = np.zeros(shape, bool)
    d = a.astype(np.float32)
    if case["mask"] is not None and what == "integrate":
        mask = np.array(case["mask"], bool).reshape(shape)
        d = np.ma.MaskedArray(d, mask)
    sub = dict(lay)
    if m:
        sub["dims"] = ["main"] + lay["dims"]
    main = c.percentile_coord([10, 50, 90][:m]) if m else None
    period = None if what != "integrate" else case["lengths"][0]
    sub["times"] = dict(lay["times"], period=period)
    cube = c.layout_cube(sub, d, "rainfall_rate", "mm s-1", main)
    tc = cube.coord("time")
    lengths = case["lengths"][:len(tc.points)]
    if what == "integrate":
        if case["nobounds"]:
            tc.bounds = None
            o.raises(ValueError, tm.integrate_time, cube)
            return True
        if (np.diff(tc.points - np.array(lengths)) <= 0).any():
            o.reject("starts of periods out of order")
        tc.bounds = np.stack([tc.points - np.array(lengths), tc.points], -1)
        for x in case["cms"]:
            cube.add_cell_method(CellMethod(*x.split()))
        before = o.snapshot(cube)
        for _ in range(2):
            res = tm.integrate_time(cube, new_name=case["name"])
            o.unchanged(before, cube)
        factor = np.array(lengths, float)
        k = shape[1 if m else 0] if lay["k"] else 1
        f = factor.reshape(([1] if m else []) + [k] + [1] * (len(lay["inner"]) - 1)) if lay["k"] else factor[0]
        want = a * f
        got = np.ma.asarray(c.aligned(res, lay, "percentile" if m else None))
        o.equal(np.ma.getmaskarray(got), mask, "masked points")
        o.close(np.where(mask, 0, np.ma.filled(got, 0)), np.where(mask, 0, want), "accumulation", rtol=1e-5)
        o.equal((res.name(), res.units == "mm", res.dtype), (case["name"] or "rainfall_rate", True, np.dtype("f4")), "result")
        o.equal([str(x) for x in res.cell_methods],
                [str(CellMethod("sum", "time"))] + [str(CellMethod(*x.split())) for x in case["cms"] if "time" not in x],
                "cell methods")
        y = res.coord("time")
        o.equal((y.points.tolist(), y.bounds.tolist()), (tc.points.tolist(), tc.bounds.tolist()), "times")
        return len(set(lengths)) > 1
    if what == "relabel":
        if len(tc.points) > 1:
            o.reject("several times")
        p = case["period"]
        if not p:
            o.raises(ValueError, tm.relabel_to_period, cube, p)
            return True
        res = tm.relabel_to_period(cube, p)
        for name in ("time", "forecast_period"):
            x = res.coord(name)
            o.equal(np.atleast_2d(x.bounds).tolist(), [[x.points[0] - 3600 * p, x.points[0]]], "bounds of " + name)
            o.equal(x.bounds.dtype, x.points.dtype, "type of " + name)
        return True
    pts = tc.points.astype("i8")
    if case["frt"] == 2:
        o.raises(Exception, tm.extract_nearest_time_point, cube, epoch, time_name="forecast_period")
        return True
    name = "forecast_reference_time" if case["frt"] else "time"
    pts = cube.coord(name).points.astype("i8")
    ask = int(pts[case["pick"] % len(pts)] + 30 * case["off"])
    gap = np.abs(pts - ask)
    best = int(gap.argmin())
    if (gap == gap[best]).sum() > 1:
        o.reject("equally near")
    when = epoch + datetime.timedelta(seconds=ask)
    before = o.snapshot(cube)
    args = (cube, when)
    kw = {"time_name": name, "allowed_dt_difference": case["allow"]}
    if gap[best] > case["allow"]:
        o.raises(ValueError, tm.extract_nearest_time_point, *args, **kw)
        return True
    res = tm.extract_nearest_time_point(*args, **kw)
    o.unchanged(before, cube)
    o.equal(res.coord(name).points.tolist(), [int(pts[best])], "nearest time")
    if name == "time" and lay["k"]:
        want = a[..., best, :] if lay["spot"] else a[..., best, :, :]
        got = c.aligned(res, dict(lay, k=0), "percentile" if m else None)
        o.equal(np.asarray(got).reshape(want.shape).tolist(), want.tolist(), "values")
    else:
        o.equal(res.data.tolist(), cube.data.tolist(), "values")
    return len(pts) > 1


# ---------------------------------------------------------------- texture
def gen_texture():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(3, 7, kinds=("laea",), square=True))
        k = draw(g.sampled([0, 0, 2, 3]))
        t = draw(g.integers(1, 3))
        n = grid["ny"] * grid["nx"] * max(k, 1) * t
        return {"grid": grid, "k": k, "t": t, "v": draw(g.fixed(n, g.sampled([0, 1, 1]))), "radius": draw(g.integers(1, 3)),
                "frac": draw(g.sampled([0, 0.5])), "limit": draw(g.sampled([0.06, 0.13, 0.27, 0.41, 0.6])),
                "pick": draw(g.integers(0, 2)), "scale": draw(g.sampled([1.0, 1.0, 3e-9, 2.7778e-7])),
                "model": draw(g.booleans()), "bad": draw(g.sampled([None] * 8 + ["values", "threshold"])),
                "times": draw(g.times())}

    return case()


def run_texture(case):
    from improver.utilities.textural import FieldTexture
    from vp import cubes as c

    grid, k, t, bad = case["grid"], case["k"], case["t"], case["bad"]
    ny, nx = grid["ny"], grid["nx"]
    a = np.array(case["v"], float).reshape([t, max(k, 1), ny, nx])
    if bad == "values":
        a[0, 0, 0, 0] = 0.5
    thr = np.array([1.0, 2.0, 4.0][:t]) * case["scale"]
    lead = []
    d = a.astype(np.float32)
    if k:
        lead = [c.realization_coord(range(k))]
    else:
        d = d[:, 0]
    if t > 1:
        lead = [c.threshold_coord(thr, "low_type_cloud_area_fraction", "m s-1")] + lead
        scal = []
    else:
        d = d[0]
        scal = [c.threshold_coord(thr, "low_type_cloud_area_fraction", "m s-1")[0]]
    attrs = dict(c.ATTRS, mosg__model_configuration="uk_ens")
    cube = c.new_cube(d, "probability_of_low_type_cloud_area_fraction_above_threshold", "1",
                      lead + c.yx_coords(grid), c.time_coords(case["times"]) + scal, attrs)
    space = grid["dx"]
    radius = (case["radius"] + case["frac"]) * space
    i = case["pick"] % t
    ask = float(thr[i])
    if bad == "threshold":
        ask = 1.5 * case["scale"]
    plugin = FieldTexture(radius, case["limit"], ask, model_id_attr="mosg__model_configuration" if case["model"] else None)
    far = ((ny - 1) ** 2 + (nx - 1) ** 2) ** 0.5 / 2
    if abs((case["radius"] + case["frac"]) - far) < 1e-6:
        o.reject("radius equal to half of the domain")
    if bad or case["radius"] + case["frac"] > far:
        o.raises(ValueError, plugin, cube)
        return True
    before = o.snapshot(cube)
    res = plugin(cube)
    o.unchanged(before, cube)
    want, sure = np.zeros((ny, nx)), np.ones((ny, nx), bool)
    r = case["radius"]
    for f in a[i]:
        edges = np.zeros((ny, nx))
        for y in range(ny):
            for x in range(nx):
                if f[y, x]:
                    edges[y, x] = sum(f[p, q] == 0 for p, q in ((y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1))
                                      if 0 <= p < ny and 0 <= q < nx)
        for y in range(ny):
            for x in range(nx):
                box = (slice(max(y - r, 0), y + r + 1), slice(max(x - r, 0), x + r + 1))
                ratio = edges[box].sum() / (4 * f[box].sum()) if f[y, x] else 1.0
                sure[y, x] &= abs(ratio - case["limit"]) > 1e-4
                want[y, x] += (ratio > case["limit"]) / len(a[i])
    got = res.data.astype(float)
    o.equal(got.shape, (ny, nx), "shape")
    o.close(np.where(sure, got, 0), np.where(sure, want, 0), "texture", atol=1e-5)
    name = "texture_of_low_type_cloud_area_fraction"
    o.equal((res.name(), str(res.units), res.dtype), ("probability_of_%s_above_threshold" % name, "1", np.dtype("f4")),
            "result")
    o.close(res.coord(name).points.astype(float), np.array([case["limit"]]), "threshold of the texture")
    at = dict(attrs)
    if not case["model"]:
        at.pop("mosg__model_configuration")
    o.equal(dict(res.attributes), at, "attributes")
    for x in cube.coords():
        if x.name() not in ("realization", "low_type_cloud_area_fraction"):
            o.same_coord(res.coord(x.name()), x)
    o.label("k%d" % k, "t%d" % t, "scale%g" % case["scale"])
    return bool(want.min() < want.max())


SUBS = {"enforce": Sub(gen_enforce, run_enforce, 3), "normalise": Sub(gen_normalise, run_normalise, 2),
        "times": Sub(gen_times, run_times, 3), "texture": Sub(gen_texture, run_texture, 2)}
