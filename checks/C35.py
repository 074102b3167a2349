"""C35: interpolation between validity times; time-lagged ensembles."""
import datetime

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: fields, directions, accumulations, maxima and minima at two times of any layout and "
        "mask, dry points, hours to days apart, times by interval or list, radiation through sunrise "
        "and sunset, plugins called for window after window with shared cubes, ensembles of several "
        "cycles with and without repeated members; non-trivial when the result changes in time, or "
        "members come from several cycles")
QUICK = 1000
THOROUGH = 40000


def dims(cube):
    return [x.name() for x in cube.coords(dim_coords=True)]


# ---------------------------------------------------------------- fields and periods
def gen_between():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization")))
        n = draw(g.integers(2, 3))
        size = g.size(lay["inner"])
        kind = draw(g.sampled(["linear", "linear", "direction", "accumulation", "accumulation", "max", "min"]))
        hours = draw(g.sampled([1, 2, 3, 6, 12, 24, 24, 36, 48]))
        v = g.integers(0, 71).map(lambda x: 5 * x) if kind == "direction" else \
            g.one_of(g.sampled([0, 0, 0, 1]), g.integers(0, 40))
        masked = draw(g.booleans())
        return {"lay": lay, "n": n, "kind": kind, "hours": hours,
                "v": [draw(g.fixed(size, v)) for _ in range(n)],
                "mask": [draw(g.fixed(size, g.sampled([0, 0, 1]))) if masked and draw(g.booleans()) else None
                         for _ in range(n)],
                "interval": draw(g.sampled([15, 30, 45, 60, 90, 180, 420])),
                "times": draw(g.one_of(g.just(None), g.lists(g.integers(1, 99), min_size=1, max_size=4))),
                "first": draw(g.sampled([1, 1, 2])), "fp0": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 12 + ["order", "mixed", "outside", "kind", "notime"]))}

    return case()


def run_between(case):
    from improver.utilities.temporal_interpolation import TemporalInterpolation
    from vp import cubes as c

    lay, kind, bad = case["lay"], case["kind"], case["bad"]
    period = kind in ("accumulation", "max", "min")
    step = 3600 * case["hours"]
    frt = lay["times"]["frt"]
    fp = lay["times"]["fp"] + step
    name, units = {"direction": ("wind_from_direction", "degrees"), "accumulation": (
        "lwe_thickness_of_precipitation_amount", "m")}.get(kind, ("air_temperature", "K"))
    cubes, arrays, masks = [], [], []
    for i in range(case["n"]):
        a = np.array(case["v"][i], float).reshape(lay["inner"])
        per = None
        if period:
            # the first input may stand for a period of another length
            per = step * case["first"] if i == 0 else step
        if bad == "mixed" and i == 1:
            per = None if period else step
        if bad == "kind" and not period:
            per = step
        t = {"frt": frt, "fp": fp + i * step, "period": per}
        m = np.zeros(a.shape, bool)
        if case["mask"][i] is not None:
            m = np.array(case["mask"][i], bool).reshape(a.shape)
        arrays.append(a)
        masks.append(m)
        d = a.astype(np.float32)
        d = np.ma.MaskedArray(d, m) if case["mask"][i] is not None else d
        cubes.append(c.layout_cube(dict(lay, times=t), d, name, units))
    start = frt + fp
    kw = {k: True for k in ("accumulation", "max", "min") if k == kind}
    if case["times"] is None:
        kw["interval_in_minutes"] = case["interval"]
    else:
        # (times in the first window)
        at = sorted({start + 60 * (step * x // 6000) for x in case["times"]} - {start})
        if bad == "outside":
            at = [start - 3600] + at
        kw["times"] = [datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(x)) for x in at][::-1]
        if not at:
            o.reject("no times")
    plugin = TemporalInterpolation(**kw)
    if bad == "order":
        o.raises(ValueError, plugin, cubes[1], cubes[0])
        return True
    if bad == "mixed" or (bad == "kind" and not period):
        o.raises(ValueError, plugin, *cubes[:2])
        return True
    if bad == "outside" and case["times"] is not None:
        o.raises(ValueError, plugin, *cubes[:2])
        return True
    if bad == "notime":
        for x in cubes:
            x.remove_coord("time")
        o.raises(Exception, plugin, *cubes[:2])
        return True
    if case["times"] is None and step % (60 * case["interval"]):
        o.raises(ValueError, plugin, *cubes[:2])
        return True
    before = [o.snapshot(x) for x in cubes]
    changes = False
    pairs = [(0, 1), (1, 2)] if case["times"] is None else [(0, 1), (0, 1)]
    if case["times"] is not None and not period:
        pairs[1] = (0, 2)
    for i, j in [p for p in pairs if p[1] < case["n"]]:
        # one plugin for window after window
        res = plugin(cubes[i], cubes[j])
        for x, y in zip(before, cubes):
            o.unchanged(x, y)
        lo, hi = start + i * step, start + j * step
        if case["times"] is None:
            pts = list(range(lo + 60 * case["interval"], hi + 1, 60 * case["interval"]))
        else:
            pts = sorted(set(at) | {hi})
        o.equal([int(x.coord("time").points[0]) for x in res], pts, "validity times")
        w = [(t - lo) / (hi - lo) for t in pts]
        a, b = arrays[i], arrays[j]
        mask = masks[i] | masks[j]
        edges = [lo] + pts
        if kind == "direction":
            za, zb = np.exp(1j * np.deg2rad(a)), np.exp(1j * np.deg2rad(b))
            zs = [(1 - f) * za + f * zb for f in w]
            want = [np.rad2deg(np.angle(z)) % 360 for z in zs]
            sure = [np.abs(z) > 1e-3 for z in zs]
        else:
            ra, rb = a, b
            if kind == "accumulation":
                ra = a / (step * case["first"] if i == 0 else step)
                rb = b / step
            want = [(1 - f) * ra + f * rb for f in w]
            if kind == "max":
                want = [np.minimum(x, b) for x in want]
            elif kind == "min":
                want = [np.maximum(x, b) for x in want]
            elif kind == "accumulation" and len(pts) > 1:
                r = [ra] + want
                acc = np.array([(p + q) / 2 * (t1 - t0) for p, q, t0, t1 in zip(r, r[1:], edges, edges[1:])])
                tot = acc.sum(axis=0)
                want = list(acc * np.where(tot > 0, b / np.where(tot > 0, tot, 1), 0))
            elif kind == "accumulation":
                want = [b]
            sure = [np.ones(a.shape, bool)] * len(w)
        total = 0
        for q, t, wv, s in zip(res, pts, want, sure):
            m = mask if len(pts) > 1 else masks[j]
            got = np.ma.asarray(c.aligned(q, lay))
            if kind == "accumulation" or not (0 < t - lo < hi - lo):
                # (at the end itself, points masked only in the other field are undecided)
                s = s & (mask == m)
            known = mask & masks[j] if t == hi else m
            unknown = m & ~known
            gm = np.ma.getmaskarray(got)
            o.equal(gm[~unknown], known[~unknown], "masked points")
            got = np.ma.filled(got, 0).astype(float)
            ok = s & ~m
            if kind == "direction":
                d = np.abs(got - wv)
                o.check(bool((np.minimum(d, 360 - d)[ok] < 0.05).all()), "direction", o.show(got), o.show(wv))
                o.check(bool(((got >= 0) & (got < 360)).all()), "direction beyond 0-360", o.show(got))
            else:
                o.close(np.where(ok, got, 0), np.where(ok, wv, 0), "value at %d" % t, rtol=1e-4, atol=1e-4)
            total = total + np.where(ok, got, 0)
            k = pts.index(t)
            bt = [edges[k], t] if period else None
            for crd, off in (("time", 0), ("forecast_period", frt)):
                x = q.coord(crd)
                o.equal((x.points.tolist(), None if x.bounds is None else x.bounds.tolist()),
                        ([t - off], bt and [[v - off for v in bt]]), crd)
                o.equal((x.dtype, str(x.units)), (cubes[0].coord(crd).dtype, str(cubes[0].coord(crd).units)),
                        crd + " type")
            o.same_coord(q.coord("forecast_reference_time"), cubes[0].coord("forecast_reference_time"))
            o.equal((q.name(), q.units, q.dtype), (name, cubes[0].units, np.dtype("f4")), "result")
            o.equal(dict(q.attributes), dict(cubes[0].attributes), "attributes")
            keep = lambda y: [d for d in dims(y) if d != "realization" or lay["k"] > 1]
            o.equal(keep(q), keep(cubes[0]), "dimensions")
            changes |= bool(len(pts) > 1 and (a != b).any())
        if kind == "accumulation":
            o.close(np.where(mask, 0, total), np.where(mask, 0, b), "total over the period", rtol=1e-4, atol=1e-4)
        o.label(kind, "masked" if mask.any() else "full", "hours%d" % case["hours"], "n%d" % case["n"])
    return changes


# ---------------------------------------------------------------- radiation
def sine(lat, lon, t):
    """Sine of the elevation of the sun."""
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t))
    day = (d - datetime.datetime(d.year, 1, 1)).days
    a = 2 * np.pi * day / 365.0
    eqt = (0.000075 + 0.001868 * np.cos(a) - 0.032077 * np.sin(a) - 0.014615 * np.cos(2 * a)
           - 0.040849 * np.sin(2 * a)) * 12 / np.pi
    dec = np.radians(-23.5 * np.cos(np.radians(0.9856 * day + 9.3)))
    h = np.radians((d.hour + d.minute / 60 + lon / 15 + eqt - 12) * 15)
    p = np.radians(lat)
    return np.sin(dec) * np.sin(p) + np.cos(dec) * np.cos(p) * np.cos(h)


def grid_latlon(cube):
    y, x = cube.coord(axis="y"), cube.coord(axis="x")
    xx, yy = np.meshgrid(x.points.astype(float), y.points.astype(float))
    if y.name() == "latitude":
        return yy, xx
    import cartopy.crs as ccrs

    p = ccrs.PlateCarree().transform_points(x.coord_system.as_cartopy_crs(), xx, yy)
    return p[..., 1], p[..., 0]


def gen_solar():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(1, 4))
        k = draw(g.sampled([0, 0, 2, 3]))
        n = grid["ny"] * grid["nx"] * max(k, 1)
        return {"grid": grid, "k": k, "day": draw(g.integers(0, 364)), "hour": draw(g.integers(0, 23)),
                "hours": draw(g.sampled([1, 3, 3, 6, 12, 24, 30])), "interval": draw(g.sampled([15, 30, 60, 180])),
                "a": draw(g.fixed(n, g.integers(0, 20))), "b": draw(g.fixed(n, g.integers(0, 20))),
                "method": draw(g.sampled(["solar", "solar", "daynight"])),
                "times": draw(g.one_of(g.just(None), g.lists(g.integers(1, 99), min_size=1, max_size=3)))}

    return case()


def run_solar(case):
    from improver.utilities.temporal_interpolation import TemporalInterpolation
    from vp import cubes as c

    grid, k = case["grid"], case["k"]
    if grid["kind"] == "latlon" and abs(grid["y0"]) + 4 * grid["dy"] > 88:
        o.reject("poles")
    shape = [grid["ny"], grid["nx"]]
    full = ([k] if k else []) + shape
    frt = 1483228800 + 86400 * case["day"] + 3600 * case["hour"]
    step = 3600 * case["hours"]
    if step % (60 * case["interval"]) and case["times"] is None:
        o.reject("interval")
    probe = c.new_cube(np.zeros(shape, np.float32), "air_temperature", "K", c.yx_coords(grid), [])
    lat, lon = grid_latlon(probe)
    s0, s1 = sine(lat, lon, frt), sine(lat, lon, frt + step)
    a = np.array(case["a"], float).reshape(full) * 10
    b = np.array(case["b"], float).reshape(full) * 10
    va, vb = a * np.maximum(s0, 0), b * np.maximum(s1, 0)
    if case["method"] == "daynight":
        va, vb = a, b
    cubes = []
    for v, fp in ((va, 0), (vb, step)):
        cubes.append(c.new_cube(v.astype(np.float32), "surface_downwelling_shortwave_flux_in_air", "W m-2",
                                ([c.realization_coord(range(k))] if k else []) + c.yx_coords(grid),
                                c.time_coords({"frt": frt, "fp": fp, "period": None})))
    kw = {"interpolation_method": case["method"]}
    if case["times"] is None:
        kw["interval_in_minutes"] = case["interval"]
        pts = list(range(frt + 60 * case["interval"], frt + step + 1, 60 * case["interval"]))
    else:
        at = sorted({frt + 60 * (step * x // 6000) for x in case["times"]} - {frt})
        if not at:
            o.reject("no times")
        kw["times"] = [datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(x)) for x in at]
        pts = sorted(set(at) | {frt + step})
    before = [o.snapshot(x) for x in cubes]
    plugin = TemporalInterpolation(**kw)
    lit = False
    for _ in range(2):
        res = plugin(*cubes)
        for x, y in zip(before, cubes):
            o.unchanged(x, y)
        o.equal([int(x.coord("time").points[0]) for x in res], pts, "validity times")
        if len(pts) == 1:
            continue
        for q, t in zip(res, pts):
            f = (t - frt) / step
            s = sine(lat, lon, t)
            if case["method"] == "solar":
                ka, kb = a * (s0 > 0), b * (s1 > 0)
                want = np.maximum(s, 0) * ((1 - f) * ka + f * kb)
                # (where the sun is near the horizon at either end the ratio is ill-conditioned)
                sure = (np.abs(s0) > 0.01) & (np.abs(s1) > 0.01) & (np.abs(s) > 1e-3)
            else:
                want = np.where(s > 0, (1 - f) * va + f * vb, 0)
                sure = np.abs(s) > 0.01
            sure = np.broadcast_to(sure, full)
            got = q.data
            o.equal(list(got.shape), full, "shape")
            o.close(np.where(sure, got, 0), np.where(sure, want, 0), "radiation at %d" % (t - frt), rtol=2e-3,
                    atol=0.02)
            dark = np.broadcast_to(s < -0.01, full)
            o.check(bool((got[dark] == 0).all()), "radiation in the dark")
            o.equal(dims(q), dims(cubes[0]), "dimensions")
            for x in cubes[0].coords():
                if x.name() not in ("time", "forecast_period"):
                    o.same_coord(q.coord(x.name()), x)
            o.equal(q.coord("forecast_period").points.tolist(), [t - frt], "forecast period")
            lit |= bool((want > 0).any() and (want == 0).any())
    o.label(case["method"], grid["kind"], "k%d" % k)
    return lit or bool((va != vb).any())


# ---------------------------------------------------------------- time-lagged ensembles
def gen_lagged():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none",), pos=False))
        n = draw(g.integers(1, 4))
        size = g.size(lay["inner"])
        return {"lay": lay, "n": n, "cycle": [draw(g.integers(0, 6)) for _ in range(n)],
                "members": [draw(g.lists(g.integers(0, 7), min_size=1, max_size=3, unique=True)) for _ in range(n)],
                "scalar": draw(g.booleans()), "v": [draw(g.fixed(3 * size, g.integers(0, 60))) for _ in range(n)],
                "nofp": draw(g.sampled([0, 0, 0, 1])), "units": draw(g.booleans()),
                "calls": draw(g.integers(1, 2))}

    return case()


def run_lagged(case):
    from improver.utilities.time_lagging import GenerateTimeLaggedEnsemble
    from iris.cube import CubeList
    from vp import cubes as c

    lay, n = case["lay"], case["n"]
    vt = lay["times"]["frt"] + lay["times"]["fp"] + 6 * 3600
    cubes, owner = [], []
    for i in range(n):
        frt = lay["times"]["frt"] + 3600 * case["cycle"][i]
        t = {"frt": frt, "fp": vt - frt, "period": lay["times"]["period"]}
        mem = sorted(case["members"][i])
        if case["scalar"]:
            mem = mem[:1]
        a = np.array(case["v"][i], float).reshape([3] + lay["inner"])[:len(mem)]
        owner += [(m, x) for m, x in zip(mem, a)]
        sub = dict(lay, times=t, dims=["main"] + (["site"] if lay["spot"] else ["y", "x"]))
        d = a.astype(np.float32)
        cube = c.layout_cube(sub, d, "air_temperature", "K", c.realization_coord(mem))
        if len(mem) == 1 and case["scalar"]:
            cube = cube[0]
        if case["nofp"] and n > 1:
            cube.remove_coord("forecast_period")
        cubes.append(cube)
    before = [o.snapshot(x) for x in cubes]
    plugin = GenerateTimeLaggedEnsemble()
    for _ in range(case["calls"]):
        res = plugin(CubeList(cubes) if case["units"] else list(cubes))
        for x, y in zip(before, cubes):
            o.unchanged(x, y)
    numbers = [m for m, _ in owner]
    if len(set(numbers)) < len(numbers):
        want = dict(enumerate(x for _, x in owner))
    else:
        want = dict(owner)
    r = res.coord("realization")
    o.equal(sorted(r.points.tolist()), sorted(want), "realizations")
    o.equal(r.dtype, np.dtype("i4"), "type of the realizations")
    space = ["spot_index"] if lay["spot"] else [res.coord(axis=a).name() for a in "yx"]
    for q in res.slices_over("realization"):
        m = int(q.coord("realization").points[0])
        o.equal(dims(q), [x for x in space if q.coord_dims(x)], "dimensions of a member")
        o.close(q.data.reshape(want[m].shape), want[m], "member %d" % m)
    latest = lay["times"]["frt"] + 3600 * max(case["cycle"])
    per = lay["times"]["period"]
    o.equal((res.coord("time").points.tolist(), res.coord("forecast_reference_time").points.tolist(),
             res.coord("forecast_period").points.tolist()), ([vt], [latest], [vt - latest]), "times")
    for crd, end in (("time", vt), ("forecast_period", vt - latest)):
        bd = res.coord(crd).bounds
        o.equal(None if bd is None else bd.tolist(), [[end - per, end]] if per else None, "bounds of " + crd)
    o.equal((res.name(), str(res.units)), ("air_temperature", "K"), "result")
    o.label("n%d" % n, "duplicates" if len(set(numbers)) < len(numbers) else "unique")
    return len(set(case["cycle"])) > 1


SUBS = {"between": Sub(gen_between, run_between, 4), "solar": Sub(gen_solar, run_solar, 2),
        "lagged": Sub(gen_lagged, run_lagged, 2)}
