"""C31: orographic enhancement of precipitation; gridded lapse rates and their application."""
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: hills and humid winds on grids of differing resolution, order, direction and units, "
        "with calm, dry and flat points; temperatures over orography and coast of any layout and "
        "height differences beyond and within the limit; non-trivial when enhancement is found, or "
        "lapse rates differ from the default")
QUICK = 900
THOROUGH = 20000
MODEL = "mosg__model_configuration"
DALR, ELR = -0.0098, -0.0065
GRIDS = ("mosg__grid_domain", "mosg__grid_type", "mosg__grid_version", "mosg__model_configuration")


def goff(t):
    t = np.asarray(t, float)
    T = 273.16
    hi = (10.79574 * (1 - T / t) - 5.028 * np.log10(t / T)
          + 1.50475e-4 * (1 - 10 ** (-8.2969 * (t / T - 1)))
          + 0.42873e-3 * (10 ** (4.76955 * (1 - T / t)) - 1) + 0.78614)
    lo = -9.09685 * (T / t - 1) - 3.56654 * np.log10(T / t) + 0.87682 * (1 - t / T) + 0.78614
    return 100 * 10 ** np.where(t > T, hi, lo)


def in_air(t, p):
    tc = t - 273.15
    return goff(t) * (1 + 1e-8 * p * (4.5 + 6e-4 * tc * tc))


# ---------------------------------------------------------------- orographic enhancement
def gen_enhance():
    from vp import gens as g

    @g.composite
    def case(draw):
        dy = draw(g.sampled([1000, 2000, 3000, 500]))
        same = draw(g.integers(0, 11)) > 0
        grid = {"kind": "laea", "ny": draw(g.integers(3, 8)), "nx": draw(g.integers(3, 8)), "dy": dy,
                "dx": dy if same else dy * 2, "y0": draw(g.integers(-9, 9)) * 1000,
                "x0": draw(g.integers(-9, 9)) * 1000, "ydesc": draw(g.integers(0, 3)) == 0,
                "xdesc": draw(g.integers(0, 3)) == 0, "bounds": draw(g.booleans())}
        n = grid["ny"] * grid["nx"]
        nv = draw(g.integers(2, 4)), draw(g.integers(2, 4))
        nn = nv[0] * nv[1]
        wind = draw(g.sampled(["u", "v", "both", "both", "both", "uniform", "calm", "part"]))
        field = {"t": g.integers(2600, 3000), "q": g.sampled([0.5, 0.7, 0.8125, 0.9, 1.0, 1.1, 0.95]),
                 "p": g.integers(700, 1000)}
        out = {k: draw(g.fixed(nn, v)) for k, v in field.items()}
        # winds strong enough for the farthest hills within reach to count
        speed = draw(g.sampled([g.integers(-25, 25)] * 2 + [g.integers(-120, 120), g.integers(60, 120)]))
        if wind == "uniform":
            out["u"], out["v"] = [draw(speed)] * nn, [draw(speed)] * nn
        else:
            out["u"] = draw(g.fixed(nn, speed)) if wind in ("u", "both", "part") else [0] * nn
            out["v"] = draw(g.fixed(nn, speed)) if wind in ("v", "both", "part") else [0] * nn
            if wind == "part":
                out["u"] = [0 if i % nv[1] < 2 else x for i, x in enumerate(out["u"])]
                out["v"] = [0 if i % nv[1] < 2 else x for i, x in enumerate(out["v"])]
        return {"grid": grid, "orog": draw(g.fixed(n, g.sampled([0, 10, 25, 60, 150, 300, 450, 800]))),
                "nv": nv, "off": [draw(g.sampled([0, 0.5, 0.25])), draw(g.sampled([0, 0.5, 0.75]))],
                "f": out, "times": draw(g.times(period=False)),
                "vdesc": [draw(g.integers(0, 3)) == 0, draw(g.integers(0, 3)) == 0],
                "swap": [draw(g.integers(0, 3)) == 0, draw(g.integers(0, 3)) == 0],
                "units": draw(g.booleans()), "attr": draw(g.booleans()), "calls": draw(g.integers(1, 2)),
                "bad": draw(g.sampled([None] * 12 + ["grid", "time", "dims", "topo"]))}

    return case()


def smooth(z, axis):
    pad = [(1, 1) if a == axis else (0, 0) for a in range(2)]
    q = np.pad(z, pad, mode="symmetric")
    q = np.moveaxis(q, axis, 0)
    return np.moveaxis((q[:-2] + q[1:-1] + q[2:]) / 3, 0, axis)


def slope(z, step, axis):
    """Centred differences; at the ends extrapolated from the differences between neighbours."""
    z = np.moveaxis(z, axis, 0)
    d = np.diff(z, axis=0) / step
    res = np.concatenate([1.5 * d[:1] - 0.5 * d[1:2], (d[1:] + d[:-1]) / 2, 1.5 * d[-1:] - 0.5 * d[-2:-1]])
    return np.moveaxis(res, 0, axis)


def box_mean(z):
    ny, nx = z.shape
    return np.array([[z[max(0, j - 1):j + 2, max(0, i - 1):i + 2].mean() for i in range(nx)]
                     for j in range(ny)])


def enhancement(z, t, q, p, u, v, dy, dx):
    """Enhancement in m/s and points where it is certain; everything ordered y, x ascending."""
    ny, nx = z.shape
    gx = slope(smooth(z, 0), dx, 1)
    gy = slope(smooth(z, 1), dy, 0)
    up = gx * u + gy * v
    mean = box_mean(z)
    sure = (np.abs(mean - 20) > 1e-3) & (np.abs(q - 0.8) > 1e-5) & (np.abs(np.abs(up) - 5e-4) > 2e-6)
    on = (mean >= 20) & (q >= 0.8) & (np.abs(up) >= 5e-4)
    point = np.where(on, np.maximum(3600 / 461.6 * q * in_air(t, p) * up / t, 0), 0)
    ws = np.hypot(u, v)
    res, ok = np.zeros_like(z), np.ones(z.shape, bool)
    roi = 15000.0 / dx
    for j in range(ny):
        for i in range(nx):
            w = ws[j, i]
            if w < 1e-7:
                continue
            sn, cs = u[j, i] / w, v[j, i] / w
            m = max(abs(sn), abs(cs))
            if abs(roi * m - round(roi * m)) < 1e-4 and m != 1:
                ok[j, i] = False
            tot = ww = 0.0
            for k in range(int(roi * m + 1e-9)):
                d = k / m
                fx, fy = i - d * sn, j - d * cs
                x, y = int(np.clip(np.around(fx), 0, nx - 1)), int(np.clip(np.around(fy), 0, ny - 1))
                wt = np.exp(-0.5 * (d * dx / (w * 102.0)) ** 2)
                for f, n in ((fx, nx), (fy, ny)):
                    if abs(f - np.floor(f) - 0.5) < 1e-3 and -1 < f < n and wt > 1e-7:
                        ok[j, i] = False
                if wt > 1e-7 and not sure[y, x]:
                    ok[j, i] = False
                tot += wt * point[y, x]
                ww += wt
            res[j, i] = 0.23265 * tot / ww
    return res / 3.6e6, ok, point


def run_enhance(case):
    from improver.orographic_enhancement import OrographicEnhancement
    from iris.coords import DimCoord
    from vp import cubes as c

    grid, bad = case["grid"], case["bad"]
    ny, nx, dy, dx = (grid[k] for k in ("ny", "nx", "dy", "dx"))
    z = np.array(case["orog"], float).reshape(ny, nx)
    # coarse grid covering the orography
    mv, nvx = case["nv"]
    sy = max((ny - 1) * dy / (mv - 1), 1) * (1 + case["off"][0])
    sx = max((nx - 1) * dx / (nvx - 1), 1) * (1 + case["off"][1])
    vgrid = {"kind": "laea", "ny": mv, "nx": nvx, "dy": sy, "dx": sx,
             "y0": grid["y0"] - 0.3 * case["off"][0] * (ny - 1) * dy,
             "x0": grid["x0"] - 0.3 * case["off"][1] * (nx - 1) * dx,
             "ydesc": case["vdesc"][0], "xdesc": case["vdesc"][1], "bounds": False}
    f = {k: np.array(v, float).reshape(mv, nvx) for k, v in case["f"].items()}
    f["t"] = f["t"] / 10.0
    f["p"] = f["p"] * 100.0

    def put(data, g, swap, name, units, times, attributes=None):
        a = data.astype(np.float32)
        if g["ydesc"]:
            a = a[::-1]
        if g["xdesc"]:
            a = a[:, ::-1]
        yx = c.yx_coords(g)
        if swap:
            a, yx = a.T, yx[::-1]
        return c.new_cube(np.ascontiguousarray(a), name, units, yx, c.time_coords(times) if times else [],
                          attributes)

    sc = case["units"]
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_det"
    spec = [("t", "air_temperature", "degC" if sc else "K"),
            ("q", "relative_humidity", "%" if sc else "1"), ("p", "air_pressure", "hPa" if sc else "Pa"),
            ("u", "grid_eastward_wind", "km h-1" if sc else "m s-1"),
            ("v", "grid_northward_wind", "km h-1" if sc else "m s-1")]
    conv = {"degC": lambda a: a - 273.15, "%": lambda a: a * 100, "hPa": lambda a: a / 100,
            "km h-1": lambda a: a * 3.6}
    cubes = [put(conv.get(un, lambda a: a)(f[k]), vgrid, case["swap"][0], nm, un, case["times"], attrs)
             for k, nm, un in spec]
    tattr = {"mosg__grid_type": "standard", "mosg__grid_version": "1.3.0", "source": "other"} if case["attr"] \
        else {"institution": "other"}
    topo = put(z / (1000 if sc else 1), grid, case["swap"][1], "surface_altitude", "km" if sc else "m", None,
               tattr)
    plugin = OrographicEnhancement()
    if bad == "grid":
        # (the pressure would fit the orography, but not the temperature)
        cubes[2] = put(f["p"], dict(vgrid, x0=vgrid["x0"] - 100), case["swap"][0], "air_pressure", "Pa",
                       case["times"], attrs)
    elif bad == "time":
        cubes[1] = put(f["q"], vgrid, case["swap"][0], "relative_humidity", "1",
                       dict(case["times"], fp=case["times"]["fp"] + 3600), attrs)
    elif bad == "dims":
        from iris.util import new_axis
        cubes = [new_axis(x, "time") for x in cubes]
    elif bad == "topo":
        from iris.util import new_axis
        topo.add_aux_coord(c.realization_coord([0]))
        topo = new_axis(topo, "realization")
    if bad or dx != dy:
        o.raises(ValueError, plugin, *(cubes + [topo]))
        return True
    yp, xp = grid["y0"] + dy * np.arange(ny), grid["x0"] + dx * np.arange(nx)
    at = [(yp - vgrid["y0"]) / sy, (xp - vgrid["x0"]) / sx]
    lo = [np.clip(np.floor(a).astype(int), 0, n - 2) for a, n in zip(at, (mv, nvx))]
    fr = [a - b for a, b in zip(at, lo)]

    def bil(a):
        r = a[lo[0]] * (1 - fr[0])[:, None] + a[lo[0] + 1] * fr[0][:, None]
        return r[:, lo[1]] * (1 - fr[1]) + r[:, lo[1] + 1] * fr[1]

    args = [bil(f[k]) for k in "tqpuv"]
    want, ok, point = enhancement(z, *args, dy=dy, dx=dx)
    before = [o.snapshot(x) for x in cubes + [topo]]
    for _ in range(case["calls"]):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                res = plugin(*(cubes + [topo]))
        got = np.asarray(res.data, float)
        o.close(np.where(ok, got, 0), np.where(ok, want, 0), "orographic enhancement", rtol=3e-3,
                atol=3e-10)
        o.check(bool((got >= 0).all()), "negative or missing enhancement")
        o.equal((res.name(), str(res.units)), ("orographic_enhancement", "m s-1"), "result")
        o.close(res.coord(axis="y").points, yp, "y of the result")
        o.close(res.coord(axis="x").points, xp, "x of the result")
        o.equal([res.coord_dims(res.coord(axis=a)) for a in "yx"], [(0,), (1,)], "dimensions")
        at = {k: v for k, v in c.ATTRS.items() if k in ("source", "institution")}
        at["title"] = "unknown"
        if case["attr"]:
            at.update({k: v for k, v in tattr.items() if k.startswith("mosg")})
        o.equal(dict(res.attributes), at, "attributes")
        for k in ("time", "forecast_reference_time", "forecast_period"):
            o.same_coord(res.coord(k), cubes[0].coord(k))
    for x, y in zip(before, cubes + [topo]):
        o.unchanged(x, y)
    o.label("calls%d" % case["calls"], "unsure" if not ok.all() else "sure",
            "enh" if (want[ok] > 0).any() else "none")
    return bool((want[ok] > 0).any())


# ---------------------------------------------------------------- lapse rates
def gen_lapse():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(1, 6))
        n = grid["ny"] * grid["nx"]
        m = draw(g.sampled([0, 0, 1, 2, 3]))
        kind = draw(g.sampled(["any", "any", "linear", "uniform"]))
        return {"grid": grid, "m": m, "times": draw(g.times()), "kind": kind,
                "t": draw(g.fixed(max(m, 1) * n, g.integers(-8, 8))),
                "slope": draw(g.sampled([-1, 0, 2, 3, -2, -4])),
                "orog": draw(g.fixed(n, g.sampled([0, 10, 20, 30, 45, 64, 100]))),
                "land": draw(g.fixed(n, g.sampled([1, 1, 1, 0]))),
                "order": draw(g.permutation(3)), "radius": draw(g.sampled([0, 1, 1, 2, 7])),
                "height": draw(g.sampled([35, 35, 20, 0, 1000])),
                "lims": draw(g.sampled([None, None, [-0.02, 0.01], [-0.5, 0.5]])),
                "units": draw(g.sampled(["K", "K", "degC"])), "ounits": draw(g.sampled(["m", "m", "km"])),
                "oswap": draw(g.booleans()), "model": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 14 + ["limits", "radius", "height", "type"]))}

    return case()


def run_lapse(case):
    from improver.lapse_rate import LapseRate
    from vp import cubes as c

    grid, m, bad = case["grid"], case["m"], case["bad"]
    ny, nx = grid["ny"], grid["nx"]
    h = np.array(case["orog"], float).reshape(ny, nx)
    land = np.array(case["land"], bool).reshape(ny, nx)
    t = np.array(case["t"], float).reshape(max(m, 1), ny, nx) / 4 + 280
    if case["kind"] == "linear":
        t = 280 + t * 0 + case["slope"] * h / 64
    elif case["kind"] == "uniform":
        t = 280.25 + t * 0
    lim = case["lims"] or [DALR, -3 * DALR]
    kw = {"max_height_diff": case["height"], "nbhood_radius": case["radius"]}
    if case["lims"]:
        kw.update(min_lapse_rate=lim[0], max_lapse_rate=lim[1])
    if bad in ("limits", "radius", "height"):
        kw.update({"limits": {"min_lapse_rate": 0.01, "max_lapse_rate": 0.009}, "radius": {"nbhood_radius": -1},
                   "height": {"max_height_diff": -1}}[bad])
        o.raises(ValueError, LapseRate, **kw)
        return True
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    lay = {"lead": "realization" if m else "none", "k": m, "spot": False, "grid": grid, "times": case["times"],
           "inner": ([m] if m else []) + [ny, nx],
           "dims": [x for x in [["realization", "y", "x"][i] for i in case["order"]] if m or x != "realization"]}
    kelvin = case["units"] == "K"
    cube = c.layout_cube(lay, (t if m else t[0]).astype(np.float32) - (0 if kelvin else np.float32(273.15)),
                         "air_temperature", case["units"], attributes=attrs)

    def flat(a, name, units, dtype):
        yx = c.yx_coords(grid)
        if case["oswap"]:
            a, yx = a.T, yx[::-1]
        return c.new_cube(np.ascontiguousarray(a).astype(dtype), name, units, yx)

    km = case["ounits"] == "km"
    orog = flat(h / (1000 if km else 1), "surface_altitude", case["ounits"], np.float32)
    mask = flat(land, "land_binary_mask", "1", np.int8)
    plugin = LapseRate(**kw)
    if bad == "type":
        o.raises(TypeError, plugin, cube.data, orog, mask)
        return True
    before = [o.snapshot(x) for x in (cube, mask)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            res = plugin(cube, orog, mask, model_id_attr=MODEL if case["model"] else None)
    for x, y in zip(before, (cube, mask)):
        o.unchanged(x, y)
    r = case["radius"]
    want = np.full(t.shape, DALR)
    sure = np.ones(t.shape, bool)
    for k in range(t.shape[0]):
        for j in range(ny):
            for i in range(nx):
                if not land[j, i]:
                    continue
                b = (slice(max(0, j - r), j + r + 1), slice(max(0, i - r), i + r + 1))
                use = land[b] & (np.abs(h[b] - h[j, i]) <= case["height"])
                hh, tt = h[b][use], t[k][b][use]
                if km or not kelvin:
                    # rounding of the units decides
                    near = np.abs(np.abs(h[b] - h[j, i]) - case["height"]) < 1e-2
                    if (near & land[b]).any() or len(set(hh)) < 2 or len(set(tt)) < 2:
                        sure[k, j, i] = False
                        continue
                if len(set(hh)) > 1 and len(set(tt)) > 1:
                    want[k, j, i] = np.polyfit(hh - hh.mean(), tt - tt.mean(), 1)[0]
    want = np.clip(want, lim[0], lim[1])
    got = np.asarray(c.aligned(res, lay), float).reshape(t.shape)
    o.close(np.where(sure, got, 0), np.where(sure, want, 0), "lapse rate", rtol=1e-3, atol=1e-5)
    o.check(bool(((got >= lim[0] - 1e-7) & (got <= lim[1] + 1e-7)).all()), "lapse rate outside the limits")
    o.equal((res.name(), str(res.units), res.dtype),
            ("air_temperature_lapse_rate", "K m-1", np.dtype("f4")), "result")
    o.equal([x.name() for x in res.coords(dim_coords=True)], [x.name() for x in cube.coords(dim_coords=True)],
            "dimensions")
    o.equal(dict(res.attributes), attrs if case["model"] else dict(c.ATTRS), "attributes")
    for x in cube.coords():
        o.same_coord(res.coord(x.name()), x)
    some = bool((sure & (np.abs(want - DALR) > 1e-5)).any())
    o.label("some" if some else "dalr", "unsure" if not sure.all() else "sure", case["kind"])
    return some


# ---------------------------------------------------------------- application of lapse rates
def gen_apply():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization", "time"), spot=False))
        n = g.size(lay["inner"])
        k = lay["grid"]["ny"] * lay["grid"]["nx"]
        h = g.sampled([0, 10, 49, 50, 51, 60, 120, 300, 900])
        return {"lay": lay, "t": draw(g.fixed(n, g.integers(2500, 3000))),
                "lr": draw(g.fixed(n, g.integers(-98, 294))),
                "a": draw(g.fixed(k, h)), "b": draw(g.fixed(k, h)),
                "units": draw(g.sampled(["K", "degC"])), "lunits": draw(g.sampled(["K m-1", "K km-1"])),
                "hunits": draw(g.sampled([["m", "m"], ["km", "m"], ["m", "km"]])),
                "swap": [draw(g.booleans()), draw(g.booleans())], "calls": draw(g.integers(1, 2)),
                "bad": draw(g.sampled([None] * 10 + ["source", "dest", "lapse", "dims"]))}

    return case()


def run_apply(case):
    from improver.lapse_rate import ApplyGriddedLapseRate
    from vp import cubes as c

    lay, bad = case["lay"], case["bad"]
    grid = lay["grid"]
    s = [grid["ny"], grid["nx"]]
    t = np.array(case["t"], float).reshape(lay["inner"]) / 10
    lr = np.array(case["lr"], float).reshape(lay["inner"]) / 1e4
    h = [np.array(case[k], float).reshape(s) for k in "ab"]
    kel, per = case["units"] == "K", case["lunits"] == "K m-1"
    cube = c.layout_cube(lay, (t - (0 if kel else 273.15)).astype(np.float32), "air_temperature", case["units"])
    other = dict(grid, y0=grid["y0"] + 1, bounds=False)
    lcube = c.layout_cube(dict(lay, grid=other) if bad == "lapse" else lay,
                          (lr * (1 if per else 1000)).astype(np.float32), "air_temperature_lapse_rate",
                          case["lunits"])

    def flat(k, g):
        a, yx = h[k] / (1 if case["hunits"][k] == "m" else 1000), c.yx_coords(g)
        if case["swap"][k]:
            a, yx = a.T, yx[::-1]
        return c.new_cube(np.ascontiguousarray(a).astype(np.float32), "surface_altitude", case["hunits"][k], yx)

    src = flat(0, other if bad == "source" else grid)
    dst = flat(1, other if bad == "dest" else grid)
    plugin = ApplyGriddedLapseRate()
    if bad == "dims":
        if not lay["k"] or lay["k"] < 2:
            o.reject("no such dimension")
        d = lcube.coord_dims(lay["lead"])[0]
        lcube = lcube[tuple(0 if i == d else slice(None) for i in range(lcube.ndim))]
    if bad:
        o.raises(ValueError, plugin, cube, lcube, src, dst)
        return True
    diff = h[1] - h[0]
    near = np.clip(diff, -50, 50)
    want = t + near * lr + (diff - near) * ELR
    values = cube.data.copy()
    for _ in range(case["calls"]):
        res = plugin(cube, lcube, src, dst)
        o.close(c.aligned(res, lay), want, "adjusted temperature", atol=2e-3)
        o.equal((res.name(), str(res.units)), ("air_temperature", "K"), "result")
        at = dict(c.ATTRS)
        at["title"] = "Post-Processed " + at["title"]
        o.equal(dict(res.attributes), at, "attributes")
        for x in cube.coords():
            o.same_coord(res.coord(x.name()), x)
    o.equal(cube.data, values, "temperatures given")
    o.label("far" if (np.abs(diff) > 50).any() else "near")
    return bool((diff != 0).any())


SUBS = {"enhance": Sub(gen_enhance, run_enhance, 3), "lapse": Sub(gen_lapse, run_lapse, 3),
        "apply": Sub(gen_apply, run_apply, 1)}
