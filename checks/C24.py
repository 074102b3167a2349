"""C24: nowcasting: advection, extrapolation, optical flow, accumulations, radar fields."""
import datetime
import re
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: fields (masked, NaN) with varying velocities in different units, lead times and grids; "
        "rain rates with orographic enhancement at several times; pairs and triples of moving rain "
        "areas; series of rates in any order with periods and requested ends; radar composites with "
        "holes and coverage; non-trivial when something moves, accumulates or is filled")
QUICK = 2000
THOROUGH = 30000
T0 = 1510286400
THR = 1 / 32.0
LAEA = {"kind": "laea", "y0": 0, "x0": 0}


def grid(ny, nx, d=2000, **kw):
    return dict(LAEA, ny=ny, nx=nx, dy=d, dx=kw.pop("dx", d), **kw)


def advected(data, bad, u, v, t, dx, dy):
    """(values, invalid, undecided) of backward bilinear advection, in float64."""
    ny, nx = data.shape
    val, inv, und = np.zeros((ny, nx)), np.zeros((ny, nx), bool), np.zeros((ny, nx), bool)
    for j, i in np.ndindex(ny, nx):
        x, y = i - u[j, i] * t / dx, j - v[j, i] * t / dy
        for p, n in ((x, nx), (y, ny)):
            for edge in (0, n - 1):
                if 0 < abs(p - edge) < 1e-4:
                    und[j, i] = True
        if not (0 <= x <= nx - 1 and 0 <= y <= ny - 1):
            inv[j, i] = True
            continue
        for q in (0, 1):
            for r in (0, 1):
                jj, ii = int(np.floor(y)) + q, int(np.floor(x)) + r
                w = abs(1 - q - (y - np.floor(y))) * abs(1 - r - (x - np.floor(x)))
                if jj >= ny or ii >= nx:
                    continue
                if bad[jj, ii]:
                    # a point that is invalid but has no weight may or may not count
                    if w > 1e-3:
                        inv[j, i] = True
                    elif not inv[j, i]:
                        und[j, i] = True
                else:
                    val[j, i] += w * data[jj, ii]
        # the next point along each axis also takes part with rounding weights
        near = [(j2, i2) for j2 in (int(round(y)) - 1, int(round(y)), int(round(y)) + 1)
                for i2 in (int(round(x)) - 1, int(round(x)), int(round(x)) + 1)
                if 0 <= j2 < ny and 0 <= i2 < nx]
        if min(abs(x - round(x)), abs(y - round(y))) < 1e-3 and any(bad[k] for k in near):
            und[j, i] |= not inv[j, i]
    und &= ~inv | und
    return val, inv, und


# ---------------------------------------------------------------- advection
def gen_advect():
    from vp import gens as g

    @g.composite
    def case(draw):
        ny, nx = draw(g.integers(2, 7)), draw(g.integers(2, 7))
        const = draw(g.booleans())
        vel = g.sampled([0, 0, 1, -1, 0.5, 2, -2, 0.3, -0.7, 1.25])       # grid squares per step
        n = ny * nx
        f = draw(g.masked_field([ny, nx], g.grid_ints(0, 20, 0.25)))
        return {"ny": ny, "nx": nx, "u": [draw(vel)] * n if const else draw(g.fixed(n, vel)),
                "v": [draw(vel)] * n if const else draw(g.fixed(n, vel)),
                "data": f, "nan": draw(g.integers(0, 4)) == 0,
                "dx": draw(g.sampled([1000, 2000, 2000])), "dy": draw(g.sampled([1000, 2000])),
                "units": draw(g.sampled(["m s-1", "m s-1", "km h-1"])),
                "coord_km": draw(g.integers(0, 4)) == 0,
                "t": draw(g.sampled([0, 300, 600, 900, 3600])), "times": draw(g.times(False)),
                "attrs": draw(g.sampled([None, {"mosg__model_configuration": "uk_nc"}])),
                "institution": draw(g.booleans()), "frt": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 12 + ["velgrid", "datagrid", "dims", "notime"]))}

    return case()


def velocity(case, a, name, yx):
    from vp import cubes as c

    m = np.array(a, float)
    if case["units"] == "km h-1":
        m = m * 3.6
    return c.new_cube(m.astype(np.float32), name, case["units"], yx,
                      attributes={})


def run_advect(case):
    from improver.nowcasting.forecasting import AdvectField
    from vp import cubes as c

    ny, nx, t = case["ny"], case["nx"], case["t"]
    g_ = grid(ny, nx, case["dy"], dx=case["dx"])
    yx = c.yx_coords(g_)
    if case["coord_km"]:
        for x in yx:
            x.convert_units("km")
    step = t or 600
    u = np.reshape(case["u"], (ny, nx)) * case["dx"] / step
    v = np.reshape(case["v"], (ny, nx)) * case["dy"] / step
    uc = velocity(case, u, "advection_velocity_x", yx)
    vc = velocity(case, v, "advection_velocity_y", yx)
    data = c.array(case["data"])
    if case["nan"]:
        data = np.ma.filled(data, np.nan)
    tc = c.time_coords(case["times"])
    if not case["frt"]:
        tc = tc[:1]
    attrs = dict(c.ATTRS)
    if not case["institution"]:
        del attrs["institution"]
    attrs["history"] = "radar"
    cube = c.new_cube(data, "lwe_precipitation_rate", "mm h-1", yx, tc, attrs)
    bad = case["bad"]
    other = c.yx_coords(grid(ny, nx, 3000))
    if bad == "velgrid":
        o.raises(Exception, AdvectField, uc, velocity(case, v, "advection_velocity_y", other))
        return True
    if bad == "datagrid":
        o.raises(Exception, AdvectField(uc, vc),
                 c.new_cube(data, "lwe_precipitation_rate", "mm h-1", other, tc),
                 datetime.timedelta(seconds=t))
        return True
    if bad == "dims":
        many = c.new_cube(np.stack([data, data]), "lwe_precipitation_rate", "mm h-1",
                          [c.realization_coord([0, 1])] + yx, tc)
        o.raises(Exception, AdvectField(uc, vc), many, datetime.timedelta(seconds=t))
        return True
    if bad == "notime":
        o.raises(Exception, AdvectField(uc, vc),
                 c.new_cube(data, "lwe_precipitation_rate", "mm h-1", yx),
                 datetime.timedelta(seconds=t))
        return True
    before = o.snapshot(cube)
    plugin = AdvectField(uc, vc, attributes_dict=case["attrs"])
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        res = plugin(cube, datetime.timedelta(seconds=t))
        again = plugin(cube, datetime.timedelta(seconds=t))
    o.unchanged(before, cube)
    raw = np.ma.getdata(data).astype(float)
    gone = np.ma.getmaskarray(data) | np.isnan(raw)
    o.equal(any("unmasked NaN" in str(w.message) for w in caught),
            bool(np.isnan(raw[~np.ma.getmaskarray(data)]).any()), "warning of NaN")
    got, gm = np.ma.getdata(res.data).astype(float), np.ma.getmaskarray(res.data)
    if t == 0:
        want, inv, und = raw, gone, np.zeros(raw.shape, bool)
        gm = gm | np.isnan(got)
    else:
        f = 3.6 if case["units"] == "km h-1" else 1
        want, inv, und = advected(np.where(gone, 0, raw), gone, uc.data.astype(float),
                                  vc.data.astype(float), t, case["dx"], case["dy"])
    d = ~und
    o.equal(gm[d].tolist(), inv[d].tolist(), "mask")
    ok = d & ~inv
    o.close(got[ok], want[ok], "values", atol=5e-3)
    o.close_masked(again.data, np.ma.getdata(res.data), np.ma.getmaskarray(res.data), "second call")
    o.equal((res.name(), str(res.units)), ("lwe_precipitation_rate", "mm h-1"), "name and units")
    o.equal(res.dtype, np.float32, "type")
    now = case["times"]["frt"] + case["times"]["fp"]
    for name, val, dt in (("time", now + t, np.int64), ("forecast_reference_time", now, np.int64),
                          ("forecast_period", t, np.int32)):
        x = res.coord(name)
        o.equal((int(x.points[0]), x.dtype), (val, dt), name)
        o.equal(str(x.units), "seconds" if name == "forecast_period" else c.TIME_UNIT, name)
    for x in yx:
        o.same_coord(res.coord(x.name()), x)
    a = dict(res.attributes)
    o.check(re.match(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ: Nowcast$", a.pop("history")) is not None,
            "history")
    want_a = {"title": c.ATTRS["title"], "institution": c.ATTRS["institution"],
              "source": "Met Office Nowcast"}
    if not case["institution"]:
        want_a.update(source="Nowcast", institution="unknown")
    want_a.update(case["attrs"] or {})
    o.equal(a, want_a, "attributes")
    o.label("t0" if not t else None, und.any() and "undecided")
    return bool(t and (np.abs(u) + np.abs(v)).max() > 0 and len(set(np.ravel(raw))) > 1)


# ---------------------------------------------------------------- extrapolation with enhancement
def gen_forecast():
    from vp import gens as g

    @g.composite
    def case(draw):
        ny, nx = draw(g.integers(2, 5)), draw(g.integers(2, 5))
        n = ny * nx
        interval = draw(g.sampled([15, 15, 20, 30]))
        nt = draw(g.integers(1, 4))
        return {"ny": ny, "nx": nx, "u": draw(g.sampled([0, 0, 1, -1, 0.5])),
                "v": draw(g.sampled([0, 0, 1, -0.5])),
                "data": {"shape": [ny, nx], "mask": draw(g.mask([ny, nx])),
                         "values": draw(g.fixed(n, g.sampled([0, 0, 0.02, 0.05, 0.25, 1, 2, 4])))},
                "oe": draw(g.fixed(n * nt, g.sampled([0, 0.02, 0.1, 0.5, 1.5]))),
                "nt": nt, "interval": interval, "max": interval * draw(g.integers(0, 3)) + draw(
                    g.sampled([0, 0, 5])),
                "oeunits": draw(g.sampled(["mm h-1", "m s-1"])),
                "units": draw(g.sampled(["mm h-1", "m s-1"])),
                "dt": draw(g.sampled([15, 30, 60])),
                "rain": draw(g.integers(0, 3)) > 0, "give": draw(g.integers(0, 6)) > 0}

    return case()


def enhance(data, gone, oe, sign):
    """(values, undecided) with the enhancement added or subtracted, in mm/h."""
    und = np.abs(data - THR) < 1e-4
    eff = np.where(data < THR, 0, oe)
    out = data + sign * eff
    if sign < 0:
        out = np.where((data >= THR) & (out <= THR), THR, out)
    return out, und & ~gone


def run_forecast(case):
    from improver.nowcasting.forecasting import CreateExtrapolationForecast
    from improver.nowcasting.utilities import ApplyOrographicEnhancement
    from iris.coords import DimCoord
    from vp import cubes as c

    ny, nx, nt = case["ny"], case["nx"], case["nt"]
    yx = c.yx_coords(grid(ny, nx))
    ms = 1 / 3.6e6
    fac = 1 if case["units"] == "mm h-1" else ms
    data = c.array(case["data"])
    name = "lwe_precipitation_rate" if case["rain"] else "lightning_flash_rate"
    cube = c.new_cube((data * np.float32(fac)).astype(np.float32), name, case["units"], yx,
                      c.time_coords({"frt": T0, "fp": 0}))
    ofac = 1 if case["oeunits"] == "mm h-1" else ms
    oe = np.array(case["oe"], np.float32).reshape(nt, ny, nx)
    pts = T0 + 60 * case["dt"] * np.arange(nt)
    oecube = c.new_cube((oe * np.float32(ofac)).astype(np.float32), "orographic_enhancement",
                        case["oeunits"],
                        [DimCoord(pts.astype(np.int64), standard_name="time", units=c.TIME_UNIT)]
                        + yx)
    if nt == 1:
        oecube = oecube[0]
    step = case["interval"] * 60
    u = np.full((ny, nx), case["u"] * 2000 / step)
    v = np.full((ny, nx), case["v"] * 2000 / step)
    mk = {"units": "m s-1"}
    uc, vc = velocity(mk, u, "advection_velocity_x", yx), velocity(mk, v, "advection_velocity_y", yx)
    args = [cube, uc, vc] + ([oecube] if case["give"] else [])
    if case["rain"] and not case["give"]:
        o.raises(ValueError, CreateExtrapolationForecast, *args)
        return True

    def nearest(t):
        d = np.abs(pts - t)
        s = np.sort(d)
        if len(s) > 1 and s[0] == s[1]:
            o.reject("two enhancement fields equally near")
        return None if s[0] > 1800 else oe[int(np.argmin(d))].astype(float)

    leads = [60 * m for m in range(0, case["max"] + 1, case["interval"])]
    fields = [nearest(T0 + s) for s in leads]
    keep = [o.snapshot(x) for x in [cube] + args[3:]]
    if case["give"] and any(x is None for x in fields):
        o.raises(ValueError, lambda: CreateExtrapolationForecast(*args)(case["interval"],
                                                                        case["max"]))
        o.label("no enhancement near")
        return True
    res = CreateExtrapolationForecast(*args)(case["interval"], case["max"])
    for b, x in zip(keep, [cube] + args[3:]):
        o.unchanged(b, x)
    o.equal(len(res), len(leads), "number of forecasts")
    raw = np.ma.getdata(data).astype(float)
    gone = np.ma.getmaskarray(data)
    base, und0 = raw, np.zeros(raw.shape, bool)
    if case["give"]:
        base, und0 = enhance(raw, gone, fields[0], -1)
        (sub,) = ApplyOrographicEnhancement("subtract")(cube, oecube)
        ok = ~gone & ~und0
        o.close(np.ma.getdata(sub.data)[ok] / fac, base[ok], "rates without enhancement", atol=1e-4)
        o.equal(np.ma.getmaskarray(sub.data).tolist(), gone.tolist(), "mask")
    moved = False
    for s, f, r in zip(leads, fields, res):
        if s == 0:
            want, inv, und = base, gone, und0
        else:
            want, inv, und = advected(np.where(gone, 0, base), gone, uc.data.astype(float),
                                      vc.data.astype(float), s, 2000, 2000)
            fuzzy = advected(und0.astype(float), np.zeros_like(gone), uc.data.astype(float),
                             vc.data.astype(float), s, 2000, 2000)[0] > 0
            und = und | fuzzy
            moved |= bool(case["u"] or case["v"])
        if case["give"]:
            want, more = enhance(want, inv, f, 1)
            und = und | more
        got, gm = np.ma.getdata(r.data).astype(float) / fac, np.ma.getmaskarray(r.data)
        o.equal(gm[~und].tolist(), inv[~und].tolist(), "mask after %s s" % s)
        ok = ~und & ~inv
        o.close(got[ok], want[ok], "rates after %s s" % s, atol=2e-3)
        o.equal(int(r.coord("time").points[0]), T0 + s, "time")
        o.equal(int(r.coord("forecast_period").points[0]), s, "forecast period")
        o.equal(int(r.coord("forecast_reference_time").points[0]), T0, "reference time")
        o.equal((r.name(), str(r.units), r.dtype), (name, case["units"], np.dtype("f4")), "result")
    o.label("enhanced" if case["give"] else "plain", moved and "moving")
    return len(set(np.ravel(raw))) > 1


# ---------------------------------------------------------------- accumulation
def gen_accum():
    from vp import gens as g

    @g.composite
    def case(draw):
        ny, nx = draw(g.integers(1, 3)), draw(g.integers(1, 3))
        nt = draw(g.integers(2, 7))
        k = draw(g.sampled([None, None, 1, 2, 3]))
        return {"ny": ny, "nx": nx, "nt": nt, "interval": draw(g.sampled([300, 900, 3600])),
                "data": draw(g.fixed(nt * ny * nx, g.sampled([0, 0.5, 1, 3, 12.25]))),
                "masks": draw(g.sampled([None, "all", "some"])),
                "mask": draw(g.fixed(nt * ny * nx, g.sampled([0, 0, 0, 1]))),
                "order": draw(g.permutation(nt)), "k": k,
                "ends": draw(g.sampled([None, None, "some", "list"])),
                "pick": draw(g.integers(1, 2 ** nt - 1)),
                "units": draw(g.sampled(["m", "mm"])), "rate": draw(g.sampled(["m s-1", "mm h-1"])),
                "bad": draw(g.sampled([None] * 10 + ["uneven", "short", "divide"])),
                "lead": draw(g.sampled([None, None, "realization"])), "twice": draw(g.booleans())}

    return case()


def run_accum(case):
    from improver.nowcasting.accumulation import Accumulation
    from iris.cube import CubeList
    from vp import cubes as c

    ny, nx, nt, dt = [case[k] for k in ("ny", "nx", "nt", "interval")]
    yx = c.yx_coords(grid(ny, nx))
    rate = np.array(case["data"], np.float32).reshape(nt, ny, nx)
    mask = np.array(case["mask"], bool).reshape(nt, ny, nx)
    if case["masks"] == "all":
        mask = np.broadcast_to(mask[0], mask.shape).copy()
    elif case["masks"] is None:
        mask = np.zeros_like(mask)
    lead = case["lead"]
    cubes = []
    fps = [dt * i for i in range(nt)]
    if case["bad"] == "uneven":
        if nt < 3:
            o.reject()
        fps[-1] += dt
    fac = 1 if case["rate"] == "m s-1" else 3.6e6
    for i in range(nt):
        d = (rate[i] * 1e-6 * fac).astype(np.float32)
        if case["masks"]:
            d = np.ma.MaskedArray(d, mask=mask[i])
        if lead:
            d = (np.ma if case["masks"] else np).stack([d, d * np.float32(2)])
        cubes.append(c.new_cube(d, "lwe_precipitation_rate", case["rate"],
                                ([c.realization_coord([0, 1])] if lead else []) + yx,
                                c.time_coords({"frt": T0, "fp": fps[i]})))
    period = None if case["k"] is None else dt * case["k"]
    if case["bad"] == "short":
        period = dt // 2
    elif case["bad"] == "divide":
        period = dt + dt // 2
    ends = None
    if case["ends"]:
        ends = [f for i, f in enumerate(fps) if case["pick"] >> i & 1]
        if case["ends"] == "list":
            ends = ends[::-1]
    plugin = Accumulation(accumulation_units=case["units"], accumulation_period=period,
                          forecast_periods=ends)
    given = CubeList([cubes[i] for i in case["order"]])
    before = [o.snapshot(x) for x in cubes]
    if case["bad"]:
        o.raises(ValueError, plugin, given)
        return True
    span = period if period is not None else fps[-1]
    want_ends = [f for f in (ends if ends is not None else fps[1:]) if f >= span]
    if not want_ends:
        try:
            o.equal(len(plugin(given)), 0, "number of accumulations")
        except ValueError:
            pass
        return False
    res = plugin(given)
    for b, x in zip(before, cubes):
        o.unchanged(b, x)
    o.equal([int(r.coord("forecast_period").points[0]) for r in res], want_ends, "ends of periods")
    for r, end in zip(res, want_ends):
        idx = [i for i, f in enumerate(fps) if end - span <= f <= end]
        want = sum((rate[i].astype(float) + rate[j]) * 0.5e-6 * dt
                   for i, j in zip(idx[:-1], idx[1:]))
        inv = mask[idx].any(0)
        if lead:
            want, inv = np.stack([want, 2 * want]), np.stack([inv, inv])
        o.close_masked(r.data, want * (1000 if case["units"] == "mm" else 1), inv,
                       "accumulation until %s" % end, rtol=1e-4)
        o.equal(r.dtype, np.float32, "type")
        o.equal(r.name(), "lwe_thickness_of_precipitation_amount", "name")
        o.equal(str(r.units), case["units"], "units")
        for name, base in (("time", T0), ("forecast_period", 0)):
            x = r.coord(name)
            o.equal((int(x.points[0]), x.bounds.tolist()),
                    (base + end, [[base + end - span, base + end]]), name)
            o.equal(x.dtype, {"time": np.int64, "forecast_period": np.int32}[name], "type of " + name)
        o.equal(int(r.coord("forecast_reference_time").points[0]), T0, "reference time")
        o.equal([(m.method, m.coord_names) for m in r.cell_methods], [("sum", ("time",))],
                "cell methods")
        o.equal(dict(r.attributes), c.ATTRS, "attributes")
    if case["twice"] and case["k"] is not None and ends is not None:
        second = plugin(given)
        o.equal(len(second), len(res), "second call")
        for a, b in zip(res, second):
            o.close_masked(b.data, np.ma.getdata(a.data), np.ma.getmaskarray(a.data), "second call")
    o.label("period given" if period else "whole span", ends and "ends given", case["masks"])
    return len(set(case["data"])) > 1


# ---------------------------------------------------------------- optical flow
def gen_flow():
    from vp import gens as g

    @g.composite
    def case(draw):
        ny, nx = draw(g.integers(14, 36)), draw(g.integers(14, 36))
        blobs = draw(g.lists(g.fixed(4, g.integers(0, 99)), min_size=1, max_size=3))
        return {"ny": ny, "nx": nx, "blobs": blobs,
                "shift": [draw(g.sampled([0, 1, -1, 1.5, -2, 0.5])) for _ in range(2)],
                "back": draw(g.sampled([0.5, 1.0, 2.0])), "noise": draw(g.fixed(16, g.integers(0, 9))),
                "radius": draw(g.sampled([3, 4, 5])), "box": draw(g.sampled([5, 6, 7, 9, 12])),
                "iters": draw(g.sampled([20, 25])), "d": draw(g.sampled([1000, 2000])),
                "t": draw(g.sampled([300, 600, 900, 1800])), "method": draw(
                    g.sampled(["box", "box", "kernel"])),
                "units": draw(g.sampled(["mm h-1", "m s-1"])), "three": draw(g.integers(0, 2)) == 0,
                "holes": draw(g.sampled([None, None, [3, 4, 8, 8], [0, 0, 5, 14]])),
                "forecast": draw(g.integers(0, 4)) == 0, "xy": draw(g.integers(0, 3)) == 0,
                "special": draw(g.sampled([None] * 10 + ["zero", "smallbox", "order", "grid", "iters",
                                                         "smallradius"]))}

    return case()


def shrink(a):
    return 0.25 * (a[1:, 1:] + a[1:, :-1] + a[:-1, 1:] + a[:-1, :-1])


def flow(d1, d2, radius, box, iters, method):
    """Reference optical flow in float64: displacements (x, y), or None if ill-conditioned."""
    ny, nx = d1.shape

    def boxmean(a):
        p = np.pad(a, radius, mode="edge")
        k = 2 * radius + 1
        c = np.cumsum(np.cumsum(np.pad(p, ((1, 0), (1, 0))), 0), 1)
        return (c[k:, k:] - c[:-k, k:] - c[k:, :-k] + c[:-k, :-k]) / k ** 2

    def kernel(a, r):
        if r < 1:
            return None
        w = 1 - np.abs(np.arange(-r, r + 1)) / r
        w = np.outer(w, w)
        w /= w.sum()
        p = np.pad(a, r, mode="symmetric")
        return sum(w[j, i] * p[j:j + a.shape[0], i:i + a.shape[1]]
                   for j in range(2 * r + 1) for i in range(2 * r + 1))

    sm = boxmean if method == "box" else (lambda a: kernel(a, radius))
    s1, s2 = sm(d1), sm(d2)
    avg = 0.5 * (s1 + s2)

    def spread(core):
        return shrink(np.pad(core, 1))

    dx = np.diff(avg, axis=1)
    dx = spread(0.5 * (dx[1:] + dx[:-1]))
    dy = np.diff(avg, axis=0)
    dy = spread(0.5 * (dy[:, 1:] + dy[:, :-1]))
    dt = spread(shrink(s2 - s1))
    nj, ni = -(-ny // box), -(-nx // box)
    U, V, W = np.zeros((nj, ni)), np.zeros((nj, ni)), np.zeros((nj, ni))
    for j in range(nj):
        for i in range(ni):
            sl = (slice(j * box, (j + 1) * box), slice(i * box, (i + 1) * box))
            A = np.stack([dx[sl].ravel(), dy[sl].ravel()], 1)
            w = 1 - np.exp(-(s1[sl].sum() + s2[sl].sum()) * 0.5 / box ** 2 / 0.8)
            if abs(w - 0.01) < 1e-4:
                return None
            W[j, i] = 0 if w < 0.01 else w
            sv = np.linalg.svd(A, compute_uv=False)
            if len(sv) < 2 or sv[1] < 0.02 * sv[0] or sv[1] < 2e-3:
                return None
            U[j, i], V[j, i] = np.linalg.lstsq(A, -dt[sl].ravel(), rcond=None)[0]
    size = np.abs(U) + np.abs(V)
    if (np.abs(size - nj / 3.0) < 1e-2).any():
        return None
    for a in (U, V, W):
        a[size > nj / 3.0] = 0

    K = np.array([[.5, 1, .5], [1, 0, 1], [.5, 1, .5]]) / 6

    def conv(a):
        p = np.pad(a, 1, mode="symmetric")
        return sum(K[j, i] * p[j:j + a.shape[0], i:i + a.shape[1]]
                   for j in range(3) for i in range(3))

    def smart(orig):
        cur = orig.copy()
        for _ in range(iters):
            nb, nw = conv(W * cur), conv(W)
            new = conv(cur)
            m = nw > 0
            new[m] = nb[m] / nw[m]
            p = W > 0
            new[p] = ((0.9 * nb + 0.1 * W * orig) / np.where(p, 0.9 * nw + 0.1 * W, 1))[p]
            cur = new
        big = np.repeat(np.repeat(cur, box, 0), box, 1)[:ny, :nx]
        return kernel(big, box // 3)

    return smart(U), smart(V)


def run_flow(case):
    from improver.nowcasting.optical_flow import OpticalFlow, generate_optical_flow_components
    from iris.cube import CubeList
    from vp import cubes as c

    ny, nx, d = case["ny"], case["nx"], case["d"]
    yx = c.yx_coords(grid(ny, nx, d))
    jj, ii = np.mgrid[0:ny, 0:nx].astype(float)

    def field(n):
        a = np.full((ny, nx), case["back"])
        for y, x, s, h in case["blobs"]:
            cy, cx = y / 99 * ny + n * case["shift"][0], x / 99 * nx + n * case["shift"][1]
            a += (0.5 + h / 12) * np.exp(-((jj - cy) ** 2 + (ii - cx) ** 2) / (2 * (3 + s / 16) ** 2))
        q = np.array(case["noise"], float).reshape(4, 4)
        a += 0.3 * np.sin(0.7 * jj + q[n % 4, 0]) * np.cos(0.45 * ii + q[n % 4, 1]) ** 2
        return a.astype(np.float32)

    nf = 3 if case["three"] else 2
    rates = [field(n) for n in range(nf)]
    sp = case["special"]
    if sp == "zero":
        rates[1] = np.zeros_like(rates[1])
    fac = 1 if case["units"] == "mm h-1" else 1 / 3.6e6
    cubes = []
    for n, r in enumerate(rates):
        data = (r * fac).astype(np.float32)
        if case["holes"]:
            j0, i0, j1, i1 = case["holes"]
            m = np.zeros((ny, nx), bool)
            m[j0:j1, i0:i1] = True
            data = np.ma.MaskedArray(np.where(m, np.float32(9.9e36), data), mask=m)
            rates[n] = np.where(m, 0, r)
        cubes.append(c.new_cube(data, "lwe_precipitation_rate", case["units"], yx,
                                c.time_coords({"frt": T0 + n * case["t"], "fp": 0})))
    if case["forecast"] and nf == 2:         # an extrapolation to the time of the observation
        cubes[0].coord("time").points = np.array([T0 + case["t"]], np.int64)
        cubes[0].coord("forecast_period").points = np.array([case["t"]], np.int32)
    if case["xy"]:
        for x in cubes:
            x.transpose([1, 0])
    km = case["radius"] * d / 1000 + 0.2
    stretch = max(1.0, case["t"] / 900)
    radius = int(km * stretch / (d / 1000))
    box = max(case["box"], radius)
    kw = {"data_smoothing_method": case["method"], "data_smoothing_radius_km": km,
          "iterations": case["iters"]}
    if sp == "iters":
        o.raises(ValueError, OpticalFlow, iterations=19)
        return True
    if sp == "smallradius":
        o.raises(ValueError, OpticalFlow(data_smoothing_radius_km=2.9 * d / 1000 / stretch),
                 cubes[0], cubes[1], boxsize=30)
        return True
    if sp == "smallbox":
        o.raises(ValueError, OpticalFlow(**kw), cubes[0], cubes[1], boxsize=radius - 1)
        return True
    if sp == "order":
        if case["forecast"] and nf == 2:
            o.reject()
        o.raises(Exception, OpticalFlow(**kw), cubes[1], cubes[0], boxsize=box)
        return True
    if sp == "grid":
        other = c.new_cube(np.ma.getdata(cubes[1].data), "lwe_precipitation_rate", case["units"],
                           c.yx_coords(grid(*cubes[1].shape, d + 1000)),
                           c.time_coords({"frt": T0 + case["t"], "fp": 0}))
        o.raises(Exception, OpticalFlow(**kw), cubes[0], other, boxsize=box)
        return True
    want = []
    for a, b in zip(rates[:-1], rates[1:]):
        if sp == "zero" and (not a.any() or not b.any()):
            want.append((np.zeros((ny, nx)), np.zeros((ny, nx))))
            continue
        ref = flow(a.astype(float), b.astype(float), radius, box, case["iters"], case["method"])
        if ref is None:
            o.reject("ill-conditioned")
        want.append([x * d / case["t"] for x in ref])
    before = [o.snapshot(x) for x in cubes]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        u, v = OpticalFlow(**kw)(cubes[0], cubes[1], boxsize=box)
    for s, x in zip(before, cubes):
        o.unchanged(s, x)
    o.equal(any("No non-zero data" in str(w.message) for w in caught), sp == "zero", "warning")
    tol = dict(rtol=5e-3, atol=2e-3 * d / case["t"])
    for r, w, ax in ((u, want[0][0], "x"), (v, want[0][1], "y")):
        o.equal(r.shape, (ny, nx), "shape")
        o.close(r.data, w, "velocity along " + ax, **tol)
        o.equal(r.dtype, np.float32, "type")
        o.equal((r.name(), str(r.units)), ("precipitation_advection_%s_velocity" % ax, "m s-1"),
                "name and units")
        o.same_coord(r.coord("time"), cubes[1].coord("time"))
        for x in yx:
            o.same_coord(r.coord(x.name()), x)
    if d == 2000 and not case["forecast"] and case["method"] == "box" and sp is None:
        # the mean over the pairs, from cubes in any order
        r14 = int(14.0 * stretch / 2)
        ref = [flow(a.astype(float), b.astype(float), r14, max(box, r14), 20, "box")
               for a, b in zip(rates[:-1], rates[1:])]
        if all(x is not None for x in ref):
            um, vm = generate_optical_flow_components(
                CubeList(cubes[::-1]), max(box, r14), 20)
            for r, k in ((um, 0), (vm, 1)):
                w = np.mean([x[k] for x in ref], 0) * d / case["t"]
                o.close(r.data, w, "mean velocity", **tol)
                o.equal(list(r.coord("time").points), list(cubes[-1].coord("time").points),
                        "time of the mean velocity")
            o.label("mean of %d" % len(ref))
    o.label(case["method"], sp)
    return True


# ---------------------------------------------------------------- radar composites
def gen_radar():
    from vp import gens as g

    @g.composite
    def case(draw):
        ny, nx = draw(g.integers(3, 15)), draw(g.integers(3, 15))
        n = ny * nx
        return {"ny": ny, "nx": nx, "nt": draw(g.sampled([1, 1, 2])),
                "rate": draw(g.field([ny, nx], g.sampled([0.0, 0.0, 0.002, 0.005, 0.03, 0.1, 0.5, 2, 8]))),
                "dry": draw(g.integers(0, 2)),
                "holes": draw(g.lists(g.fixed(4, g.integers(0, 14)), min_size=1, max_size=4)),
                "cover": draw(g.field([ny, nx], g.sampled([0, 1, 1, 2, 2, 2, 3, 4, 5, -1]))),
                "units": draw(g.sampled(["mm h-1", "mm h-1", "m s-1"])),
                "bad": draw(g.integers(0, 12)) == 0, "masked": draw(g.booleans())}

    return case()


def run_radar(case):
    from improver.nowcasting.utilities import ExtendRadarMask, FillRadarHoles
    from iris.coords import DimCoord
    from vp import cubes as c

    ny, nx = case["ny"], case["nx"]
    yx = c.yx_coords(grid(ny, nx))
    fac = 1 if case["units"] == "mm h-1" else 1 / 3.6e6
    rate = np.array(case["rate"], np.float32).reshape(ny, nx)
    if not case["dry"]:
        rate = rate + np.float32(0.25)
    elif case["dry"] == 2:              # just wet enough to be filled
        rate = rate + np.float32(0.002)
    mask = np.zeros((ny, nx), bool)
    for j, i, h, w in case["holes"]:
        mask[j % ny:j % ny + 1 + h % 5, i % nx:i % nx + 1 + w % 6] = True
    data = np.ma.MaskedArray((rate * np.float32(fac)).astype(np.float32), mask=mask.copy())
    scal = c.time_coords({"frt": T0, "fp": 0})
    cube = c.new_cube(data, "lwe_precipitation_rate", case["units"], yx, scal)
    before = o.snapshot(cube)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = FillRadarHoles()(cube)
    o.unchanged(before, cube)
    want, wmask = rate.astype(float).copy(), mask.copy()
    und = np.zeros((ny, nx), bool)
    pad = np.pad(mask, 4, constant_values=True)
    for j, i in zip(*np.nonzero(mask)):
        if pad[j:j + 9, i:i + 9].sum() < 0.3 * 81:
            win = [(a, b) for a in range(j - 2, j + 3) for b in range(i - 2, i + 3)
                   if 0 <= a < ny and 0 <= b < nx and not mask[a, b]]
            vals = np.array([rate[p] for p in win], float)
            wmask[j, i] = False
            want[j, i] = 0 if (vals <= 0.001).any() else 10 ** np.mean(np.log10(vals))
            und[j, i] = not len(vals)
    got = np.ma.getdata(res.data).astype(float) / fac
    o.equal(np.ma.getmaskarray(res.data).tolist(), wmask.tolist(), "mask after filling")
    ok = ~wmask & ~und
    o.close(got[ok], want[ok], "rates after filling", rtol=1e-4, atol=1e-6)
    o.equal((res.name(), str(res.units), res.dtype),
            ("lwe_precipitation_rate", case["units"], np.dtype("f4")), "result")

    # coverage
    nt = case["nt"]
    cover = np.array(case["cover"], np.int32).reshape(ny, nx)
    both = np.stack([cover, cover[::-1]][:nt])
    dims = list(yx)
    rd = data if case["masked"] else np.ma.getdata(data)
    if nt > 1:
        dims = [DimCoord(np.array([T0, T0 + 900], np.int64), standard_name="time",
                         units=c.TIME_UNIT)] + dims
        scal = scal[1:2]
        rd = np.ma.stack([rd, rd * 2]) if case["masked"] else np.stack([rd, rd * 2])
    radar = c.new_cube(rd, "lwe_precipitation_rate", case["units"], dims, scal)
    cov = c.new_cube(both if nt > 1 else both[0], "radar_coverage", "1",
                     [x.copy() for x in dims], scal)
    if case["bad"]:
        cov.coord(axis="x").points = cov.coord(axis="x").points + np.float32(2000)
        o.raises(ValueError, ExtendRadarMask(), radar, cov)
        return True
    b2 = [o.snapshot(radar), o.snapshot(cov)]
    ext = ExtendRadarMask()(radar, cov)
    o.unchanged(b2[0], radar)
    o.unchanged(b2[1], cov)
    valid = (both == 1) | (both == 2)
    valid = valid if nt > 1 else valid[0]
    o.close_masked(ext.data, np.ma.getdata(rd), ~valid, "rates within coverage")
    o.equal([x.name() for x in ext.dim_coords], [x.name() for x in radar.dim_coords], "dimensions")
    filled = int(mask.sum() - wmask.sum())
    o.label("filled" if filled else "not filled", wmask.any() and "left masked")
    return filled > 0


SUBS = {"advect": Sub(gen_advect, run_advect, 3), "forecast": Sub(gen_forecast, run_forecast, 2),
        "accum": Sub(gen_accum, run_accum, 2), "flow": Sub(gen_flow, run_flow, 1),
        "radar": Sub(gen_radar, run_radar, 2)}
