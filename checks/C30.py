"""C30: winds: components, ensemble mean direction, gusts, updraughts and downscaling."""
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: speeds and directions on both kinds of grid with realizations and times, opposing "
        "members, percentiles of gust and speed with matching and other times, CAPE and precipitation, "
        "wind profiles over orography with sea, missing and rough points; non-trivial when the result "
        "is not uniform")
QUICK = 1600
THOROUGH = 30000
MODEL = "mosg__model_configuration"


def dims(cube):
    return [x.name() for x in cube.coords(dim_coords=True)]


# ---------------------------------------------------------------- components
def gen_components():
    from vp import gens as g

    @g.composite
    def case(draw):
        k = draw(g.sampled([0, 0, 1, 2]))
        ny, nx = draw(g.integers(2, 5)), draw(g.integers(2, 5))
        kind = draw(g.sampled(["laea", "laea", "latlon"]))
        dx = draw(g.sampled([2, 10, 100])) * 1000 if kind == "laea" else draw(g.sampled([1, 2]))
        grid = {"kind": kind, "ny": ny, "nx": nx, "dy": dx, "dx": dx,
                "y0": draw(g.integers(-8, 6)) * (10 ** 5 if kind == "laea" else 5),
                "x0": draw(g.integers(-10, 10)) * (10 ** 5 if kind == "laea" else 5),
                "ydesc": False, "xdesc": False, "bounds": draw(g.booleans())}
        n = max(k, 1) * ny * nx
        return {"grid": grid, "k": k, "times": draw(g.times()), "from": draw(g.booleans()),
                "speed": draw(g.fixed(n, g.integers(0, 40))), "dir": draw(g.fixed(n, g.integers(0, 359))),
                "units": draw(g.sampled(["degrees", "degrees", "radians"])),
                "gust": draw(g.booleans()), "flags": draw(g.sampled([None] * 3 + ["speed", "dir", "both"])),
                "su": draw(g.sampled(["m s-1", "knots"])),
                "bad": draw(g.sampled([None] * 12 + ["speed", "dir", "grid", "time"]))}

    return case()


def run_components(case):
    import cartopy.crs as ccrs
    from improver.wind_calculations.wind_components import ResolveWindComponents
    from iris.coords import AuxCoord
    from vp import cubes as c

    k, grid = case["k"], case["grid"]
    ny, nx = grid["ny"], grid["nx"]
    shape = ([k] if k else []) + [ny, nx]
    speed = np.array(case["speed"], float).reshape(shape) / 2
    deg = np.array(case["dir"], float).reshape(shape)
    name = "wind_from_direction" if case["from"] else "wind_to_direction"
    name += "_of_gust" * case["gust"]
    ddata = deg if case["units"] == "degrees" else np.deg2rad(deg)
    lay = {"lead": "realization" if k else "none", "k": k, "spot": False, "grid": grid, "inner": shape,
           "times": case["times"], "dims": (["realization"] if k else []) + ["y", "x"]}
    sp = c.layout_cube(lay, speed.astype(np.float32), "wind_speed" + "_of_gust" * case["gust"],
                       case["su"])
    g2, t2 = dict(grid), dict(case["times"])
    if case["bad"] == "grid":
        g2["y0"] += 1
    elif case["bad"] == "time":
        t2["frt"] += 3600
    wd = c.layout_cube(dict(lay, grid=g2, times=t2), ddata.astype(np.float32), name, case["units"])
    if case["bad"] == "speed":
        sp.rename("air_temperature")
    elif case["bad"] == "dir":
        wd.rename("wind_speed")
    if case["bad"]:
        o.raises(ValueError, ResolveWindComponents(), sp, wd)
        return True
    # flags of the quality of each input are no reason to refuse the pair
    for cube, nm in ((sp, "speed"), (wd, "dir")):
        if case["flags"] in (nm, "both"):
            label = {"speed": "wind_speed status_flag", "dir": "wind_from_direction status_flag"}[nm]
            cube.add_aux_coord(AuxCoord(np.zeros((ny, nx), np.int8), long_name=label, units="1"),
                               (cube.ndim - 2, cube.ndim - 1))
    before = o.snapshot(sp)
    u, v = ResolveWindComponents()(sp, wd)
    o.unchanged(before, sp)
    theta = np.zeros((ny, nx))
    if grid["kind"] == "laea":
        proj = c.LAEA.as_cartopy_crs()
        plate = ccrs.PlateCarree()
        for j, y in enumerate(sp.coord(axis="y").points):
            for i, x in enumerate(sp.coord(axis="x").points):
                lon, lat = plate.transform_point(float(x), float(y), proj)
                a = proj.transform_point(lon, lat - 1e-3, plate)
                b = proj.transform_point(lon, lat + 1e-3, plate)
                theta[j, i] = np.arctan2(b[0] - a[0], b[1] - a[1])
    angle = np.deg2rad(deg) + theta + (np.pi if case["from"] else 0)
    tol = 2e-3 * 20 + 1e-4
    o.close(u.data, speed * np.sin(angle), "eastward wind", atol=tol)
    o.close(v.data, speed * np.cos(angle), "northward wind", atol=tol)
    o.close(np.hypot(u.data, v.data), speed, "speed of the components", atol=1e-4)
    for cube, nm in ((u, "grid_eastward_wind"), (v, "grid_northward_wind")):
        o.equal((cube.name(), str(cube.units), dims(cube)), (nm, case["su"], dims(sp)), "result")
        o.equal(dict(cube.attributes), dict(sp.attributes), "attributes")
        for x in sp.coords():
            o.same_coord(cube.coord(x.name()), x)
    o.label(grid["kind"])
    return len(set(case["speed"])) > 1


# ---------------------------------------------------------------- mean direction
def gen_direction():
    from vp import gens as g

    @g.composite
    def case(draw):
        m, k = draw(g.integers(1, 4)), draw(g.sampled([0, 0, 2, 3]))
        grid = draw(g.xy_grid(1, 4, kinds=("laea",), square=True))
        first = draw(g.booleans())
        if not first:                       # the neighbourhood has to fit in the domain
            big = draw(g.sampled([(2000, 6), (4000, 4), (4000, 5), (3000, 5)]))
            grid.update(dy=big[0], dx=big[0], ny=big[1], nx=big[1])
        ny, nx = grid["ny"], grid["nx"]
        n = m * max(k, 1) * ny * nx
        calls = draw(g.integers(1, 2))
        return {"grid": grid, "m": m, "k": k, "times": draw(g.times()), "first": first,
                "dir": [draw(g.fixed(n, g.sampled(
                    [0, 90, 180, 270, 359, 1, 45, 225, 135, 315, 10, 200, 181.5, 91.5, 178.5]))) for _ in range(calls)],
                "units": draw(g.sampled(["degrees", "degrees", "radians"])),
                "order": draw(g.permutation(2)),
                "bad": draw(g.sampled([None] * 12 + ["cube", "units", "method"]))}

    return case()


def run_direction(case):
    from improver.wind_calculations.wind_direction import WindDirection
    from vp import cubes as c

    m, k, grid = case["m"], case["k"], case["grid"]
    ny, nx = grid["ny"], grid["nx"]
    method = "first_realization" if case["first"] else "neighbourhood"
    if case["bad"] == "method":
        o.raises(ValueError, WindDirection, "second")
        return True
    plugin = WindDirection(method)
    some = False
    for values in case["dir"]:
        deg = np.array(values, float).reshape([m, max(k, 1), ny, nx])
        lay = {"lead": "time" if k else "none", "k": k, "spot": False, "grid": grid,
               "inner": ([k] if k else []) + [ny, nx], "times": case["times"],
               "dims": ["main", "y", "x"] if not k else
               [["main", "time"][i] for i in case["order"]] + ["y", "x"]}
        data = deg if k else deg[:, 0]
        if case["units"] == "radians":
            data = np.deg2rad(data)
        cube = c.layout_cube(lay, data.astype(np.float32), "wind_from_direction", case["units"],
                             c.realization_coord(np.arange(m)))
        if case["bad"] == "cube":
            o.raises(TypeError, plugin, cube.data)
            return True
        if case["bad"] == "units":
            cube.units = "m"
            o.raises(ValueError, plugin, cube)
            return True
        # bearings as complex numbers are clockwise from north; any fixed convention averages alike
        z = np.exp(1j * np.deg2rad(deg))
        mean = z.mean(axis=0)
        radius = np.abs(mean)
        sure = np.abs(radius - 0.01) > 1e-4
        want = mean.copy()
        if case["first"]:
            alt = z[0]
        else:
            cells = int(6000 // grid["dy"])
            alt = np.zeros_like(mean)
            for t in range(mean.shape[0]):
                for j in range(ny):
                    for i in range(nx):
                        box = z[:, t, max(0, j - cells):j + cells + 1, max(0, i - cells):i + cells + 1]
                        alt[t, j, i] = box.mean()
            sure &= (radius > 0.02) | (np.abs(alt) > 1e-4)
        low = radius < 0.01
        want[low] = alt[low]
        res = plugin(cube)
        got = c.aligned(res, lay).reshape(mean.shape)
        o.check(bool(((got[sure] >= 0) & (got[sure] < 360.0001)).all()), "directions outside 0 to 360")
        diff = np.angle(np.exp(1j * np.deg2rad(got.astype(float))) / np.where(np.abs(want) > 0, want, 1))
        o.close(np.where(sure, diff, 0), np.zeros(mean.shape), "mean direction (difference in radians)",
                atol=2e-3)
        o.equal((res.name(), str(res.units)), ("wind_from_direction", "degrees"), "result")
        o.equal([str(x) for x in res.cell_methods][-1], "realization: mean", "cell method")
        o.equal(dims(res), [x for x in dims(cube) if x != "realization"], "dimensions")
        o.equal(res.coords("realization"), [], "realizations")
        for x in ("time", "forecast_period", "forecast_reference_time"):
            o.same_coord(res.coord(x), cube.coord(x))
        at = dict(cube.attributes)
        at["title"] = "Post-Processed " + at["title"]
        o.equal(dict(res.attributes), at, "attributes")
        some |= bool(low.any())
        o.label("low" if low.any() else "high", method, "calls%d" % len(case["dir"]))
    return some or m > 1


# ---------------------------------------------------------------- gusts and updraughts
def gen_gust():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(3, leads=("none", "none", "time")))
        n = g.size(lay["inner"]) * 3
        return {"lay": lay, "a": draw(g.fixed(n, g.integers(0, 40))), "b": draw(g.fixed(n, g.integers(0, 40))),
                "pg": draw(g.sampled([50.0, 95.0, 95.0])), "pw": draw(g.sampled([95.0, 100.0, 50.0])),
                "shift": draw(g.sampled([0, 0, 0, -3600, 1800, 3600, -1800, -7200])),
                "length": draw(g.sampled([None, 3600, 7200])),
                "bad": draw(g.sampled([None] * 8 + ["percentile", "cube", "notime", "coord"]))}

    return case()


def run_gust(case):
    from improver.wind_calculations.wind_gust_diagnostic import WindGustDiagnostic
    from vp import cubes as c

    lay, bad = dict(case["lay"]), case["bad"]
    pts = [50.0, 95.0, 100.0]
    shape = [3] + lay["inner"]
    a = np.array(case["a"], float).reshape(shape)
    b = np.array(case["b"], float).reshape(shape)
    length = case["length"] if lay["lead"] != "time" or not lay["k"] else None
    lay["times"] = dict(lay["times"], period=length)
    gust = c.layout_cube(lay, a.astype(np.float32), "wind_speed_of_gust", "m s-1", c.percentile_coord(pts))
    sub = dict(lay, times=dict(lay["times"], period=None, fp=lay["times"]["fp"] + case["shift"]))
    if sub["times"]["fp"] < 0:
        o.reject("negative forecast period")
    wind = c.layout_cube(sub, b.astype(np.float32), "wind_speed", "m s-1", c.percentile_coord(pts))
    if bad == "percentile":
        gust = gust[tuple(slice(0, 1) if i == gust.coord_dims("percentile")[0] else slice(None)
                          for i in range(gust.ndim))]
        case = dict(case, pg=95.0)
    elif bad == "notime":
        if wind.coord_dims("time"):
            o.reject("time is a dimension")
        wind.remove_coord("time")
    plugin = WindGustDiagnostic(case["pg"], case["pw"])
    if bad == "cube":
        o.raises(TypeError, plugin, gust.data, wind)
        return True
    if bad == "coord":
        wind.remove_coord("percentile")
        o.raises(Exception, plugin, gust, wind)
        return True
    ok = case["shift"] == 0 or (length is not None and -length <= case["shift"] <= 0)
    if bad or not ok:
        o.raises(ValueError, plugin, gust, wind)
        return True
    before = [o.snapshot(x) for x in (gust, wind)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = plugin(gust, wind)
    for x, y in zip(before, (gust, wind)):
        o.unchanged(x, y)
    want = np.maximum(a[pts.index(case["pg"])], b[pts.index(case["pw"])])
    o.close(c.aligned(res, lay), want, "wind gust")
    txt = {(50.0, 95.0): "Typical gusts", (95.0, 100.0): "Extreme gusts"}.get(
        (case["pg"], case["pw"]), "<WindGustDiagnostic: wind-gust perc=%3.1f, wind-speed perc=%3.1f>"
        % (case["pg"], case["pw"]))
    o.equal(dict(res.attributes), dict(gust.attributes, title="Post-Processed " + gust.attributes["title"],
                                       wind_gust_diagnostic=txt), "attributes")
    o.equal((res.name(), str(res.units)), ("wind_speed_of_gust", "m s-1"), "result")
    o.equal(res.coords("percentile"), [], "percentiles")
    o.equal(dims(res), [x for x in dims(gust) if x != "percentile"], "dimensions")
    for x in ("time", "forecast_period", "forecast_reference_time"):
        o.same_coord(res.coord(x), gust.coord(x))
    o.label("shift" if case["shift"] else "same")
    return len(set(case["a"])) > 1


def gen_updraught():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization")))
        n = g.size(lay["inner"])
        return {"lay": lay, "cape": draw(g.fixed(n, g.sampled([0, 1, 9.9, 10.1, 50, 800, 3000]))),
                "rate": draw(g.fixed(n, g.sampled([0, 1, 4.9, 5.1, 28.7, 80]))),
                "model": draw(g.booleans()), "length": draw(g.sampled([3600, 10800])),
                "units": draw(g.sampled(["mm h-1", "m s-1"])), "swap": draw(g.booleans()),
                "title": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 10 + ["grid", "frt", "bounds", "nobounds", "point", "extra",
                                                     "missing", "model"]))}

    return case()


def run_updraught(case):
    from improver.wind_calculations.vertical_updraught import VerticalUpdraught
    from iris.cube import CubeList
    from vp import cubes as c

    lay, bad = case["lay"], case["bad"]
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    shape = lay["inner"]
    cape = np.array(case["cape"], float).reshape(shape)
    rate = np.array(case["rate"], float).reshape(shape)
    t = lay["times"]
    length = case["length"]
    after = dict(t, fp=t["fp"] + length, period=length if bad != "nobounds" else None)
    first = dict(t, period=3600 if bad == "bounds" else None)
    if bad == "frt":
        first.update(frt=t["frt"] - 3600, fp=t["fp"] + 3600)
    elif bad == "point":
        first["fp"] += length
    other = dict(attrs, **({MODEL: "uk_det"} if bad == "model" else {}))
    if case["title"]:
        other["title"] = "Other"
    sub = dict(lay, times=first)
    if bad == "grid":
        if lay["spot"]:
            o.reject("sites")
        sub["grid"] = dict(lay["grid"], y0=lay["grid"]["y0"] + 1)
    cc = c.layout_cube(sub, cape.astype(np.float32), "atmosphere_convective_available_potential_energy",
                       "J kg-1", attributes=other)
    scale = 1 if case["units"] == "mm h-1" else 1 / 3.6e6
    pc = c.layout_cube(dict(lay, times=after), (rate * scale).astype(np.float32), "lwe_precipitation_rate_max",
                       case["units"], attributes=attrs)
    cubes = CubeList([pc, cc] if case["swap"] else [cc, pc])
    if bad == "extra":
        x = cc.copy()
        x.rename("air_temperature")
        cubes.append(x)
    elif bad == "missing":
        cubes = cubes[:1]
    use = case["model"] or bad == "model"
    plugin = VerticalUpdraught(MODEL if use else None)
    if bad:
        o.raises(ValueError, plugin, cubes)
        return True
    res = plugin(cubes)
    want = np.where(cape < 10, 0, 0.25 * np.sqrt(2 * cape)) + np.where(rate < 5, 0, 7.33 * (rate / 28.7) ** 0.22)
    o.close(c.aligned(res, lay), want, "updraught", rtol=1e-4)
    o.equal((res.name(), str(res.units), res.dtype), ("maximum_vertical_updraught", "m s-1", np.dtype("f4")),
            "result")
    at = dict(attrs) if use else dict(c.ATTRS)
    at["title"] = "unknown" if case["title"] else at["title"]
    o.equal(dict(res.attributes), at, "attributes")
    o.equal(dims(res), dims(pc), "dimensions")
    for x in pc.coords():
        o.same_coord(res.coord(x.name()), x)
    return len(np.unique(want)) > 1


# ---------------------------------------------------------------- downscaling
def gen_downscale():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(1, 3, kinds=("laea",), desc=True))
        three = draw(g.sampled([None, "1d", "3d"]))
        if not grid["bounds"] or three == "3d":
            grid["ny"], grid["nx"] = max(2, grid["ny"]), max(2, grid["nx"])
        ny, nx = grid["ny"], grid["nx"]
        n = ny * nx
        nt = draw(g.sampled([0, 0, 2, 3]))
        nz = draw(g.integers(2, 5))
        return {"grid": grid, "nt": nt, "times": draw(g.times()), "nz": nz,
                "levels": draw(g.sampled([[0.5, 10, 200, 1500, 6000], [5, 50, 400, 2000, 9000],
                                          [0, 20, 60, 500, 8000]])),
                "three": three,
                "lift": draw(g.fixed(n, g.sampled([1, 1, 1.5, 0.8]))),
                "u": draw(g.fixed(max(nt, 1) * n * nz, g.integers(0, 30))),
                "aos": draw(g.fixed(n, g.sampled([0.2, 0.05, 0.6, 0, 0.2]))),
                "sigma": draw(g.fixed(n, g.sampled([20, 80, 300, 0, 5]))),
                "z0": draw(g.sampled([None, 1, 1])) and draw(
                    g.fixed(n, g.sampled([0.1, 0.5, 0.8, 0.01, 0, -1]))),
                "pp": draw(g.fixed(n, g.integers(0, 60))), "mod": draw(g.fixed(n, g.integers(0, 60))),
                "nan": draw(g.sampled([None, None, None, "aos", "sigma", "pp", "mod", "z0"])),
                "at": draw(g.integers(0, n - 1)), "modres": draw(g.sampled([1500, 4000, 400])),
                "order": draw(g.permutation(4)), "zname": draw(g.sampled(["height", "height"])),
                "calls": draw(g.integers(1, 2)),
                "bad": draw(g.sampled([None] * 12 + ["grid", "units", "negative", "nan", "order", "z0units",
                                                     "latlon", "height"]))}

    return case()


def interp(h, u, at):
    """Linear in height; below the lowest level linear from zero at the ground."""
    if at < h[0]:
        return at / h[0] * u[0]
    return np.interp(at, h, u)


def run_downscale(case):
    from improver.wind_calculations.wind_downscaling import RoughnessCorrection
    from iris.coords import DimCoord
    from vp import cubes as c

    grid, nt, nz, bad = dict(case["grid"]), case["nt"], case["nz"], case["bad"]
    ny, nx = grid["ny"], grid["nx"]
    s = [ny, nx]
    f = {"aos": np.array(case["aos"], float), "sigma": np.array(case["sigma"], float),
         "pp": np.array(case["pp"], float) * 10, "mod": np.array(case["mod"], float) * 10}
    if case["z0"]:
        f["z0"] = np.array(case["z0"], float)
    if case["nan"] in f:
        f[case["nan"]][case["at"]] = np.nan if case["nan"] not in ("pp",) else -32767.0
    f = {x: y.reshape(s) for x, y in f.items()}
    if bad == "latlon":
        grid.update(kind="latlon", dy=1, dx=1, y0=0, x0=0)
    yx = c.yx_coords(grid)
    # the last level is above every reference height
    h1 = np.array(case["levels"][:nz - 1] + case["levels"][-1:], np.float32)
    zc = DimCoord(h1, "height", units="m")
    h3 = h1[:, None, None] * np.ones([nz] + s)
    if case["three"] == "3d":
        h3 = h3 * np.array(case["lift"], float).reshape(s)
    k = max(nt, 1)
    u = np.array(case["u"], float).reshape([k, nz] + s) + 0.5
    lay = {"lead": "time" if nt else "none", "k": nt, "spot": False, "grid": grid, "times": case["times"],
           "inner": ([nt] if nt else []) + s,
           "dims": [x for x in [["main", "time", "y", "x"][i] for i in case["order"]] if x != "time" or nt]}
    wdata = np.moveaxis(u, 1, 0) if nt else u[0]
    wdata = wdata.astype(np.float32)
    if bad == "negative":
        wdata.flat[0] = -1
    elif bad == "nan":
        wdata.flat[0] = np.nan
    wind = c.layout_cube(lay, wdata, "wind_speed", "m s-1", zc)
    swapped = lay["dims"].index("y") > lay["dims"].index("x")
    gap = lay["dims"].index("x") - lay["dims"].index("y")
    attrs = dict(c.ATTRS)

    def anc(name, units, key):
        g2 = dict(grid, y0=grid["y0"] + 1) if bad == "grid" and key == "mod" else grid
        cube = c.new_cube(f[key].astype(np.float32), name, units, c.yx_coords(g2), [], attrs)
        return cube

    ancs = {"aos": anc("silhouette_roughness", "1", "aos"), "sigma": anc("standard_deviation_of_height", "m", "sigma"),
            "pp": anc("surface_altitude", "m", "pp"), "mod": anc("surface_altitude", "m", "mod")}
    z0c = anc("vegetative_roughness_length", "m", "z0") if case["z0"] else None
    if bad == "units":
        ancs["sigma"].units = "km"
    elif bad == "z0units":
        if z0c is None:
            o.reject("no z0")
        z0c.units = "cm"
    hc = None
    if case["three"] == "1d":
        hc = c.new_cube(h1, "height", "m", [zc], [], attrs)
    elif case["three"] == "3d":
        hc = c.new_cube(h3.astype(np.float32), "height", "m", [zc] + c.yx_coords(grid), [], attrs)
        if bad == "height":
            hc.data[0, 0, 0] = np.nan
    if bad == "height" and case["three"] != "3d":
        o.reject("no heights")
    allc = list(ancs.values()) + ([z0c] if z0c is not None else [])
    before = [o.snapshot(x) for x in allc]

    def make():
        return RoughnessCorrection(ancs["aos"], ancs["sigma"], ancs["pp"], ancs["mod"], case["modres"],
                                   z0_cube=z0c, height_levels_cube=hc)

    if bad in ("units", "z0units", "grid", "latlon"):
        o.raises(ValueError, make)
        return True
    plugin = make()
    if bad in ("negative", "nan", "height"):
        o.raises(ValueError, plugin, wind)
        return True
    if bad == "order":
        if gap == 1:
            o.reject("usual order")
        o.raises(ValueError, plugin, wind)
        return True
    if gap != 1:
        lay["dims"] = [x for x in lay["dims"] if x not in "yx"] + ["y", "x"]
        wind = c.layout_cube(lay, wdata, "wind_speed", "m s-1", zc)
    del swapped
    was = o.snapshot(wind)
    ppres = (grid["dy"] + grid["dx"]) / 2
    kmax, kmin = np.pi / (ppres / 2), np.pi / (3 * case["modres"])
    want = np.zeros_like(u)
    sure = np.ones(u.shape, bool)
    for j, i in np.ndindex(ny, nx):
        a, sg = f["aos"][j, i], f["sigma"][j, i]
        oro = [f["pp"][j, i], f["mod"][j, i]]
        slope = bool(sg > 0 and a > 0)
        h = h3[:, j, i].astype(np.float32).astype(float)
        for t in range(k):
            prof = u[t, :, j, i]
            out = prof.copy()
            if slope:
                h2 = sg * np.sqrt(2)
                kk = min(a * np.pi / h2, kmax)
                kk = max(kk, kmin)
                alpha = min(max(-np.log(0.04) + np.log(kk * h2), 0), 1)
                href = max(min(max(alpha / kk, 1), 2 * h2), 1)
                z0 = f["z0"][j, i] if case["z0"] else np.nan
                if z0 > 0:
                    uh = interp(h, prof, href)
                    for n in range(nz):
                        if h[n] < href:
                            with np.errstate(all="ignore"):
                                out[n] = uh * np.log(h[n] / z0) / np.log(href / z0)
                        sure[t, n, j, i] &= abs(h[n] - href) > 1e-3
                if not np.isnan(oro).any() and -32767.0 not in oro:
                    ref = interp(h, prof, 1 / kk)
                    if ref > 0:
                        out = out + np.exp(-h * kk) * ref * (oro[0] - oro[1]) * kk
            want[t, :, j, i] = np.maximum(out, 0)
    for _ in range(case["calls"]):
        res = plugin(wind)
        got = c.aligned(res, lay, "height")
        got = np.moveaxis(got, 0, 1) if nt else got[None]
        o.close(np.where(sure, got, 0), np.where(sure, want, 0), "wind speed", rtol=1e-3, atol=2e-3)
        o.unchanged(was, wind)
        o.equal((res.name(), str(res.units), res.dtype), ("wind_speed", "m s-1", np.dtype("f4")), "result")
        o.equal(dims(res), dims(wind), "dimensions")
        for x in wind.coords():
            o.same_coord(res.coord(x.name()), x)
        at = dict(wind.attributes)
        at["title"] = "Post-Processed " + at["title"]
        o.equal(dict(res.attributes), at, "attributes")
    for x, y in zip(before, allc):
        o.unchanged(x, y)
    o.label("calls%d" % case["calls"], str(case["three"]), "z0" if case["z0"] else "no z0")
    return bool(np.abs(want - u).max() > 0.01)


SUBS = {"components": Sub(gen_components, run_components, 2), "direction": Sub(gen_direction, run_direction, 2),
        "gust": Sub(gen_gust, run_gust, 1), "updraught": Sub(gen_updraught, run_updraught, 1),
        "downscale": Sub(gen_downscale, run_downscale, 3)}
