"""C33: probability of lightning from instability and precipitation, and its nowcast."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: instability and rain rates around latitude-dependent thresholds, ensembles, the "
        "regression for dry, moist and stable points, nowcasts over several lead times with "
        "lightning, precipitation and ice, in differing units and orders, and inputs that do not "
        "belong together; non-trivial when the probabilities differ between points")
QUICK = 1200
THOROUGH = 30000
MODEL = "mosg__model_configuration"


def dims(cube):
    return [x.name() for x in cube.coords(dim_coords=True)]


def flash(o, res):
    th = res.coord("number_of_lightning_flashes_per_unit_area")
    o.equal((th.var_name, str(th.units), th.points.tolist(), dict(th.attributes), th.points.dtype),
            ("threshold", "m-2", [0.0], {"spp__relative_to_threshold": "greater_than"}, np.dtype("f4")),
            "threshold")


# ---------------------------------------------------------------- CAPE and precipitation
def gen_pair():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(1, 5, kinds=("latlon",)))
        grid["dy"] = draw(g.sampled([1, 5, 10, 15]))
        grid["y0"] = draw(g.sampled([-60, -55, -40, -20, -8, 0, 20, 10]))
        m = draw(g.sampled([0, 0, 1, 2, 3]))
        n = max(m, 1) * grid["ny"] * grid["nx"]
        return {"grid": grid, "m": m, "cape": draw(g.fixed(n, g.integers(0, 60))),
                "rate": draw(g.fixed(n, g.integers(0, 50))), "times": draw(g.times(period=False)),
                "length": draw(g.sampled([3600, 10800])), "units": draw(g.sampled(["mm h-1", "m s-1"])),
                "swap": draw(g.booleans()), "model": draw(g.booleans()), "list": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 10 + ["frt", "grid", "point", "length", "cape", "precip",
                                                     "end"]))}

    return case()


def threshold(lat, mid, trop):
    return np.interp(np.abs(lat), [10, 50], [trop, mid])


def run_pair(case):
    from improver.lightning import LightningFromCapePrecip
    from iris.cube import CubeList
    from vp import cubes as c

    grid, m, bad = case["grid"], case["m"], case["bad"]
    s = ([m] if m else []) + [grid["ny"], grid["nx"]]
    cape = np.array(case["cape"], float).reshape(s) * 10 + 0.3
    rate = np.array(case["rate"], float).reshape(s) / 10 + 0.013
    lat = grid["y0"] + grid["dy"] * np.arange(grid["ny"])
    if grid["ydesc"]:
        lat = lat[::-1]
    t = case["times"]
    length = 7200 if bad == "length" else case["length"]
    after = dict(t, fp=t["fp"] + length, period=length)
    first = dict(t)
    if bad == "frt":
        first.update(frt=t["frt"] - 3600, fp=t["fp"] + 3600)
    elif bad == "point":
        first["fp"] += 1800
    elif bad == "end":
        first["fp"] += length
    lead = [c.realization_coord(range(m))] if m else []
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    g2 = dict(grid, x0=grid["x0"] + 1) if bad == "grid" else grid
    cc = c.new_cube(cape.astype(np.float32), "atmosphere_convective_available_potential_energy", "J kg-1",
                    lead + c.yx_coords(g2), c.time_coords(first), attrs)
    scale = 1 if case["units"] == "mm h-1" else 1 / 3.6e6
    pc = c.new_cube((rate * scale).astype(np.float32), "lwe_precipitation_rate_max", case["units"],
                    lead + c.yx_coords(grid), c.time_coords(after), attrs)
    cubes = [pc, cc] if case["swap"] else [cc, pc]
    if bad in ("cape", "precip"):
        cubes[cubes.index(cc if bad == "cape" else pc)].rename("air_temperature")
    plugin = LightningFromCapePrecip(MODEL if case["model"] else None)
    args = (CubeList(cubes),) if case["list"] else tuple(cubes)
    if bad:
        o.raises(ValueError, plugin, *args)
        return True
    before = [o.snapshot(x) for x in cubes]
    res = plugin(*args)
    for x, y in zip(before, cubes):
        o.unchanged(x, y)
    tc, tr = threshold(lat, 350, 500)[:, None], threshold(lat, 1, 4)[:, None]
    sure = (np.abs(cape - tc) > 1e-3) & (np.abs(rate - tr) > 1e-5)
    want = ((cape > tc) & (rate > tr)).astype(float)
    o.equal(np.where(sure, res.data, 0), np.where(sure, want, 0), "probability of lightning")
    o.equal((res.name(), str(res.units), res.dtype),
            ("probability_of_number_of_lightning_flashes_per_unit_area_above_threshold", "1", np.dtype("f4")),
            "result")
    flash(o, res)
    at = dict(attrs if case["model"] else c.ATTRS)
    at["title"] = "Post-Processed " + at["title"]
    o.equal(dict(res.attributes), at, "attributes")
    o.equal(dims(res), dims(pc), "dimensions")
    for x in pc.coords():
        o.same_coord(res.coord(x.name()), x)
    return bool(want.max() > want.min())


# ---------------------------------------------------------------- regression
NAMES = [("cape", "atmosphere_specific_convective_available_potential_energy", "J kg-1"),
         ("li", "temperature_difference_between_ambient_air_and_air_lifted_adiabatically", "K"),
         ("pw", "precipitable_water", "kg m-2"), ("cin", "atmosphere_specific_convective_inhibition", "J kg-1"),
         ("apcp", "precipitation_amount", "kg m-2")]


def gen_usaf():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization")))
        n = g.size(lay["inner"])
        return {"lay": lay, "cape": draw(g.fixed(n, g.sampled([0, 0, -1, 5, 100, 500, 2000, 5000]))),
                "li": draw(g.fixed(n, g.sampled([-8, -4.5, -4, -3, 0, 2, 7]))),
                "pw": draw(g.fixed(n, g.sampled([0, 5, 19, 21, 40, 60]))),
                "cin": draw(g.fixed(n, g.sampled([0, -10, -50, -300]))),
                "apcp": draw(g.fixed(n, g.sampled([0, 0.1, 0.3, 1, 2, 5, 30, 80]))),
                "mm": [draw(g.booleans()), draw(g.booleans())], "order": draw(g.permutation(5)),
                "model": draw(g.booleans()), "which": draw(g.integers(0, 4)),
                "title": draw(g.sampled([None, "UK title"])),
                "bad": draw(g.sampled([None] * 12 + ["frt", "grid", "point", "length", "missing", "units"]))}

    return case()


def run_usaf(case):
    from improver.lightning import LightningMultivariateProbability_USAF2024
    from iris.cube import CubeList
    from vp import cubes as c

    lay, bad, which = case["lay"], case["bad"], case["which"]
    f = {k: np.array(case[k], float).reshape(lay["inner"]) for k, _, _ in NAMES}
    t = lay["times"]
    length = 3600 if bad == "length" else 10800
    attrs = {k: v for k, v in c.ATTRS.items() if k != "title"}
    if case["title"]:
        attrs["title"] = case["title"]
    attrs[MODEL] = "uk_ens"
    cubes = []
    for i, (k, name, units) in enumerate(NAMES):
        sub = dict(lay, times=dict(t, period=None))
        if k == "apcp":
            sub["times"] = dict(t, fp=t["fp"] + length, period=length)
        elif bad == "frt" and i == which:
            sub["times"].update(frt=t["frt"] - 3600, fp=t["fp"] + 3600)
        elif bad == "point" and i == which:
            sub["times"]["fp"] += 3600
        elif bad == "grid" and i == which:
            sub["grid"] = dict(lay["grid"], y0=lay["grid"]["y0"] + 1)
        if units == "kg m-2" and case["mm"][int(k == "pw")]:
            units = "mm"
        if bad == "units" and i == which:
            units = {"J kg-1": "kJ kg-1", "K": "degC", "kg m-2": "m", "mm": "m"}[units]
        cubes.append(c.layout_cube(sub, f[k].astype(np.float32), name, units, attributes=attrs))
    rain = cubes[4]
    before = [o.snapshot(x) for x in cubes]
    if bad == "missing":
        cubes[which].rename("air_temperature")
    plugin = LightningMultivariateProbability_USAF2024()
    given = CubeList([cubes[i] for i in case["order"]])
    if bad:
        if bad in ("frt", "point", "grid") and which == 4:
            o.reject("the precipitation itself")
        if bad == "grid" and lay["spot"]:
            o.reject("sites")
        o.raises(ValueError, plugin, given)
        return True
    res = plugin(given, model_id_attr=MODEL if case["model"] else None)
    for x, y in zip(before, cubes):
        o.unchanged(x, y)
    inch = f["apcp"] / 1000 * 39.3701
    with np.errstate(all="ignore"):
        p = 0.13 * np.log(f["cape"] * inch + 0.7) + 0.05
        dry = 0.025 * np.log(f["cape"] / (100 - f["cin"]) + 0.31) + 0.03
    low = inch - f["pw"] / 1000
    sure = np.abs(low - 0.01) > 1e-6
    p = np.where(low < 0.01, dry, p)
    p = np.where(f["cape"] <= 0, 0.2 * np.sqrt(np.maximum(f["li"] + 4, 0) * inch), p)
    p = p * np.minimum(f["pw"] / 20, 1)
    p = np.minimum(p, 0.95)
    got = np.asarray(c.aligned(res, lay), float)
    o.close(np.where(sure, got, 0), np.where(sure, p, 0), "probability of lightning", rtol=1e-4, atol=1e-5)
    o.check(bool((got <= 0.95 + 1e-6).all()), "probability above 95%")
    o.equal((res.name(), str(res.units), res.dtype),
            ("probability_of_number_of_lightning_flashes_per_unit_area_in_vicinity_above_threshold", "1",
             np.dtype("f4")), "result")
    flash(o, res)
    vic = res.coord("radius_of_vicinity")
    o.equal((vic.points.tolist(), str(vic.units)), ([20000.0], "m"), "vicinity")
    at = dict(attrs)
    if not case["model"]:
        at.pop(MODEL)
    at["title"] = "Post-Processed UK title" if case["title"] else "unknown"
    o.equal(dict(res.attributes), at, "attributes")
    o.equal(dims(res), dims(rain), "dimensions")
    for x in rain.coords():
        o.same_coord(res.coord(x.name()), x)
    o.label("stable" if (f["cape"] <= 0).any() else "unstable", lay["lead"])
    return bool(p.max() > p.min())


# ---------------------------------------------------------------- nowcasts
def gen_nowcast():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(4, 5, kinds=("laea",), square=True))
        k = draw(g.sampled([0, 0, 0, 0, 0, 0, 0, 1, 1, 2]))
        nf = draw(g.sampled([0, 0, 1, 2, 3]))
        n = grid["ny"] * grid["nx"]
        p = g.integers(0, 20).map(lambda x: x / 20)
        kk, ff = max(k, 1), max(nf, 1)
        return {"grid": grid, "k": k, "nf": nf, "step": draw(g.sampled([15, 30, 60])),
                "fp": draw(g.sampled([0, 0, 15, 60, 90, 135, 150, 240])),
                "shift": draw(g.sampled([0, 0, 30, 60, -60, 120, -120])),
                "fg": draw(g.fixed(ff * n, p)), "rate": draw(g.fixed(kk * n, g.sampled(
                    [-1, -1, 0, 0.25, 0.6, 1.1, 2.3, 3, 0.5]))),
                "rain": draw(g.fixed(kk * 3 * n, g.one_of(p, g.sampled([0, 0.02, 0.05, 0.08, 0.1])))),
                "ice": draw(g.one_of(g.just(None), g.fixed(3 * n, p))),
                "units": draw(g.sampled(["min-1", "s-1", "h-1"])), "tunits": draw(g.sampled(["mm h-1", "m s-1"])),
                "extra": draw(g.booleans()), "order": draw(g.permutation(4)), "icelist": draw(g.booleans()),
                "swap": draw(g.permutation(4)), "bad": draw(g.sampled(
                    [None] * 12 + ["fg", "ratetime", "rain0", "rain1", "rain2", "ice", "norate", "far"]))}

    return case()


def run_nowcast(case, radius=None):
    from improver.nbhood.nbhood import NeighbourhoodProcessing
    from improver.nowcasting.lightning import NowcastLightning
    from iris.coords import DimCoord
    from iris.cube import CubeList
    from vp import cubes as c

    grid, k, bad = case["grid"], case["k"], case["bad"]
    ny, nx = grid["ny"], grid["nx"]
    kk, nf = max(k, 1), case["nf"]
    base = 1510286400
    mins = case["fp"] + case["step"] * np.arange(kk)
    rate = np.array(case["rate"], float).reshape(kk, ny, nx)
    rain = np.array(case["rain"], float).reshape(3, kk, ny, nx)
    fg = np.array(case["fg"], float).reshape(max(nf, 1), ny, nx)

    def cube(data, name, units, frt, minutes, scalar, main=None, order=None):
        """data: [main,] time, y, x"""
        pts = (base + 60 * np.asarray(minutes)).astype(np.int64)
        fps = (pts - frt).astype(np.int32)
        tc = [DimCoord(pts[0] if scalar else pts, "time", units=c.TIME_UNIT),
              DimCoord(np.int64(frt), "forecast_reference_time", units=c.TIME_UNIT)]
        fc = DimCoord(fps[0] if scalar else fps, "forecast_period", units="seconds")
        a = data[..., 0, :, :] if scalar else data
        lead = ([main] if main is not None else []) + ([] if scalar else [tc[0]])
        res = c.new_cube(a.astype(np.float32), name, units, lead + c.yx_coords(grid),
                         tc[1:] + (tc[:1] if scalar else []))
        res.add_aux_coord(fc, None if scalar else res.coord_dims("time"))
        return res

    def threshold_cube(name, coord, *args):
        return cube(args[0], "probability_of_%s_above_threshold" % name, "1", base, args[1], args[2], coord)

    pts = [0.5, 7.0, 35.0]
    data = rain
    if case["extra"]:
        pts = [0.1] + pts
        data = np.concatenate([rain[:1] * 0 + 0.7, rain])
    if bad in ("rain0", "rain1", "rain2"):
        pts = [p * (1.5 if p == (0.5, 7.0, 35.0)[int(bad[-1])] else 1) for p in pts]
    f = 1 if case["tunits"] == "mm h-1" else 3.6e6
    precip = threshold_cube("lwe_precipitation_rate",
                            c.threshold_coord(np.array(pts) / f, "lwe_precipitation_rate", case["tunits"]),
                            data, mins, not k)
    per = {"min-1": 1, "s-1": 1 / 60, "h-1": 60}[case["units"]]
    rmins = mins + 15 if bad == "ratetime" else mins
    rcube = cube(rate * per, "rate_of_lightning", case["units"], base, rmins, not k)
    shift = case["shift"] if bad != "far" else 1000
    fmins = case["fp"] + shift + 60 * np.arange(max(nf, 1))
    fcube = cube(fg, "probability_of_rate_of_lightning_above_threshold", "1", base - 7200 * 4, fmins, not nf)
    if bad == "fg":
        fcube.rename("probability_of_rate_of_lightning_below_threshold")
    cubes = [fcube, precip, rcube]
    if bad == "norate":
        cubes.pop()
    ice = None
    if case["ice"] is not None:
        ice = np.array(case["ice"], float).reshape(3, ny, nx)
        ip = [0.5, 1.0, 2.0] if bad != "ice" else [0.5, 1.0, 3.0]
        icube = threshold_cube("vertical_integral_of_ice", c.threshold_coord(ip, "vertical_integral_of_ice",
                                                                             "kg m-2"),
                               ice[:, None], [0], True)
        cubes += [icube[i] for i in range(3)] if case["icelist"] else [icube]
    elif bad == "ice":
        o.reject("no ice")
    if not case["icelist"] or ice is None:
        cubes = [cubes[i] for i in case["order"] if i < len(cubes)]
    plugin = NowcastLightning(float(grid["dx"]) if radius is None else radius)
    # nearest first guess
    dist = np.abs(fmins[None, :] - mins[:, None])
    near = dist.argmin(axis=1)
    if (np.sort(dist, axis=1)[:, :1] == dist).sum(axis=1).max() > 1:
        o.reject("first guesses at equal distance")
    if bad or (dist.min(axis=1) > 120).any():
        o.raises(Exception, plugin, CubeList(cubes))
        return True
    want = np.zeros(rate.shape)
    sure = np.ones(rate.shape, bool)
    r32 = rain.astype(np.float32)
    for i, fc in enumerate(mins):
        v = fg[near[i]].copy()
        lim = 0.5 + fc / 180.0
        sure[i] &= (np.abs(rate[i] - lim) > 1e-4) & ((rate[i] != 0) | (case["units"] == "min-1"))
        v = np.where(rate[i] >= 0, np.maximum(v, 0.25), v)
        v = np.where(rate[i] >= lim, 1.0, v)
        v = np.where(r32[1, i] >= 0.4, np.maximum(v, 0.25), v)
        v = np.where(r32[2, i] >= 0.2, 1.0, v)
        v = np.minimum(v, np.interp(rain[0, i], [0, 0.05, 0.1], [0.0067, 0.25, 1]))
        if ice is not None:
            for q, top in zip(ice, (0.1, 0.5, 0.9)):
                v = np.maximum(v, q * max(top * (1 - fc / 150.0), 0))
        want[i] = v
    try:
        res = plugin(CubeList(cubes))
    except ValueError as exc:
        if k > 1 and "ambiguous" in str(exc):
            o.known("nowcast_lightning_times")
        raise
    o.equal((res.name(), str(res.units)), ("probability_of_rate_of_lightning_above_threshold", "1"), "result")
    o.equal(dims(res), (["time"] if k else []) + dims(precip)[-2:], "dimensions")
    o.equal(res.coords("lwe_precipitation_rate"), [], "precipitation thresholds")
    for name in ("time", "forecast_reference_time", "projection_y_coordinate", "projection_x_coordinate"):
        o.same_coord(res.coord(name), precip.coord(name))
    period = res.coord("forecast_period").copy()
    period.convert_units("minutes")
    o.close(period.points, mins if k else mins[:1], "forecast periods")
    o.equal(dict(res.attributes), dict(c.ATTRS, title="Post-Processed " + c.ATTRS["title"]), "attributes")
    got = np.asarray(res.data, float).reshape(want.shape)
    spread = NeighbourhoodProcessing("circular", [plugin.radius, 2 * plugin.radius], lead_times=[0.0, 6.0])(
        res.copy(data=want.astype(np.float32).reshape(res.shape)))
    spread = np.asarray(spread.data, float).reshape(want.shape)
    if radius is None:
        # the spreading of the result to its neighbourhood is judged in the check "radius"
        plain = np.allclose(np.where(sure, got, 0), np.where(sure, want, 0), rtol=1e-3, atol=2e-5)
        if plain or not (sure.all() and np.allclose(got, spread, rtol=1e-3, atol=2e-5)):
            o.close(np.where(sure, got, 0), np.where(sure, want, 0), "probability of lightning", rtol=1e-3,
                    atol=2e-5)
    else:
        if not sure.all() or np.allclose(want, spread, atol=1e-3):
            o.reject("the neighbourhood makes no difference")
        if np.allclose(got, want, rtol=1e-3, atol=2e-5):
            o.known("nowcast_lightning_radius")
        o.close(got, spread, "probability of lightning over the neighbourhood", rtol=1e-3, atol=2e-5)
    o.label("k%d" % k, "ice" if ice is not None else "no ice", "nf%d" % nf)
    return bool(want.max() > want.min())


def gen_radius():
    from vp import gens as g

    @g.composite
    def case(draw):
        case = draw(gen_nowcast())
        return dict(case, bad=None, units="min-1", nf=0, shift=0, radius=case["grid"]["dx"] * draw(g.sampled([1.0, 1.2])))

    return case()


def run_radius(case):
    case = dict(case, fg=case["fg"][:case["grid"]["ny"] * case["grid"]["nx"]])
    if case["k"]:
        case["step"] = 15
    return run_nowcast(case, case["radius"])


SUBS = {"pair": Sub(gen_pair, run_pair, 2), "usaf": Sub(gen_usaf, run_usaf, 2),
        "nowcast": Sub(gen_nowcast, run_nowcast, 3), "radius": Sub(gen_radius, run_radius, 1)}
