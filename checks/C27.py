"""C27: moist thermodynamics: vapour pressure, parcels, wet-bulb temperature, cloud levels."""
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: temperatures from polar to tropical, pressures from the ground to 10 km and humidities "
        "to saturation (and beyond, for parcels) on grids and sites of any layout with vertical "
        "levels in either order, units, masks and integration limits; non-trivial when values differ "
        "and the parcel is saturated, the integral positive or the cloud top found")
QUICK = 1200
THOROUGH = 40000
CP, RD, RV, EPS = 1005.0, 287.0, 461.6, 0.62198
MODEL = "mosg__model_configuration"


def goff(t):
    """Saturation vapour pressure in Pa."""
    t = np.asarray(t, float)
    T = 273.16
    hi = (10.79574 * (1 - T / t) - 5.028 * np.log10(t / T)
          + 1.50475e-4 * (1 - 10 ** (-8.2969 * (t / T - 1)))
          + 0.42873e-3 * (10 ** (4.76955 * (1 - T / t)) - 1) + 0.78614)
    lo = -9.09685 * (T / t - 1) - 3.56654 * np.log10(T / t) + 0.87682 * (1 - t / T) + 0.78614
    return 100 * 10 ** np.where(t > T, hi, lo)


def in_air(t, p):
    t = np.asarray(t, float)
    tc = t - 273.15
    return goff(np.clip(t, 183.15, 338.15)) * (1 + 1e-8 * p * (4.5 + 6e-4 * tc * tc))


def qsat(t, p):
    es = in_air(t, p)
    return EPS * es / (np.maximum(es, p) - (1 - EPS) * es)


def latent(t):
    return 2.501e6 - 2340.0 * (np.asarray(t, float) - 273.15)


def bisect(f, lo, hi, n=60):
    """Root of a decreasing function, point by point."""
    lo, hi = np.array(lo, float), np.array(hi, float)
    for _ in range(n):
        mid = (lo + hi) / 2
        up = f(mid) > 0
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    return (lo + hi) / 2


def condense(t, q, p):
    """Temperature and humidity after condensation to saturation."""
    t, q, p = np.broadcast_arrays(*(np.asarray(a, float) for a in (t, q, p)))
    r = latent(t) / CP
    got = bisect(lambda x: qsat(t + r * (q - x), p) - x, np.zeros(t.shape), q)
    wet = qsat(t, p) < q
    return np.where(wet, t + r * (q - got), t), np.where(wet, got, q), wet


def dims(cube):
    return [x.name() for x in cube.coords(dim_coords=True)]


# ---------------------------------------------------------------- functions
def gen_funcs():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.integers(1, 6))
        shape = draw(g.sampled([[n], [n], [1, n], [n, 2]]))
        m = g.size(shape)
        return {"shape": shape, "t": draw(g.fixed(m, g.integers(2050, 3150))),
                "far": draw(g.sampled([0, 0, 0, -60, 40])),
                "p": draw(g.fixed(m, g.integers(200, 1080))),
                "p2": draw(g.fixed(m, g.integers(150, 1080))),
                "rh": draw(g.fixed(m, g.sampled([0, 5, 30, 60, 90, 97, 103, 120, 160, 250]))),
                "dtype": draw(g.sampled(["f4", "f4", "f8"])), "scalar": draw(g.booleans()),
                "tmin": draw(g.sampled([183.15, 175.0, 220.0, 270.0, 160.0])),
                "span": draw(g.integers(1, 60)), "inc": draw(g.sampled([0.1, 0.5, 1.0, 10.0]))}

    return case()


def run_funcs(case):
    from improver.generate_ancillaries.generate_svp_table import SaturatedVapourPressureTable
    from improver.psychrometric_calculations import psychrometric_calculations as m

    tmax = case["tmin"] + case["span"] * case["inc"]
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        table = SaturatedVapourPressureTable(t_min=case["tmin"], t_max=tmax,
                                             t_increment=case["inc"])()
    pts = case["tmin"] + case["inc"] * np.arange(case["span"] + 1)
    o.close(table.coord("air_temperature").points, pts, "temperatures of the table", atol=1e-8)
    sure = np.abs(pts - 273.16) > 1e-6
    o.close(table.data[sure], goff(pts)[sure], "vapour pressures of the table", rtol=1e-9)
    o.equal((table.name(), str(table.units), table.attributes),
            ("saturated_vapour_pressure", "Pa",
             {"minimum_temperature": case["tmin"], "maximum_temperature": tmax,
              "temperature_increment": case["inc"]}), "table")
    if tmax > 373.5 or case["tmin"] < 172:
        o.check(any("out of SVP table range" in str(w.message) for w in seen), "no range warning")
    shape, dt = case["shape"], case["dtype"]
    t = (np.array(case["t"], float) / 10 + case["far"] + 0.003).astype(dt).reshape(shape)
    p = (np.array(case["p"], float) * 100).astype(dt).reshape(shape)
    p2 = (np.array(case["p2"], float) * 100).astype(dt).reshape(shape)
    args = [a.copy() for a in (t, p, p2)]
    if case["scalar"]:
        p2 = p2.flat[0]
    got = m.calculate_svp_in_air(t, p)
    o.close(got, in_air(t, p.astype(float)), "vapour pressure in air", rtol=5e-4)
    got = m.saturated_humidity(t, p)
    o.close(got, qsat(t, p.astype(float)), "saturated humidity", rtol=7e-4)
    o.equal(got.dtype, np.dtype(dt), "type of saturated humidity")
    t2 = m.dry_adiabatic_temperature(t, p, p2)
    o.close(t2, t.astype(float) * (np.asarray(p2, float) / p) ** (RD / CP),
            "temperature after dry ascent", rtol=2e-6)
    o.close(m.dry_adiabatic_pressure(t, p, t2), np.broadcast_to(np.asarray(p2, float), t.shape),
            "pressure after dry ascent", rtol=2e-5)
    if case["far"]:
        return True
    rh = np.array(case["rh"], float).reshape(shape) / 100
    q = (qsat(t, p.astype(float)) * rh).astype(np.float32)
    tt, before = t.astype(np.float32), q.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = m.adjust_for_latent_heat(tt, q, p.astype(np.float32))
    want_t, want_q, wet = condense(tt, q, p.astype(float))
    o.close(res[0], want_t, "temperature after condensation", atol=0.02)
    o.close(res[1], want_q, "humidity after condensation", atol=1e-5, rtol=1e-3)
    dry = ~wet & (np.abs(rh - 1) > 0.01)
    o.equal(res[0][dry].tolist(), tt[dry].tolist(), "temperature of unsaturated air")
    o.equal(res[1][dry].tolist(), before[dry].tolist(), "humidity of unsaturated air")
    for a, b in zip((t, p, q), (args[0], args[1], before)):
        o.equal(a.tolist(), b.tolist(), "inputs")
    return bool(wet.any())


# ---------------------------------------------------------------- wet-bulb temperature
def gen_wetbulb():
    from vp import gens as g

    @g.composite
    def case(draw):
        nz = draw(g.sampled([0, 0, 1, 2, 3]))
        lay = draw(g.layout(nz, max_n=2))
        n = g.size(lay["inner"]) * max(nz, 1)
        return {"lay": lay, "nz": nz, "z": draw(g.sampled(["height", "height", "pressure"])),
                "desc": draw(g.booleans()), "t": draw(g.fixed(n, g.integers(2050, 3150))),
                "rh": draw(g.fixed(n, g.integers(0, 21))), "p": draw(g.fixed(n, g.integers(250, 1060))),
                "tu": draw(g.sampled(["K", "K", "celsius"])), "ru": draw(g.sampled(["1", "%"])),
                "pu": draw(g.sampled(["Pa", "hPa"])), "model": draw(g.booleans()),
                "order": draw(g.permutation(3)),
                "mask": draw(g.sampled([None, None, None, 0, 1, 2])),
                "bits": draw(g.fixed(n, g.integers(0, 1))), "precision": draw(g.sampled([None, 0.001])),
                "bad": draw(g.sampled([None] * 10 + ["count", "levels"]))}

    return case()


def run_wetbulb(case):
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperature
    from iris.coords import DimCoord
    from vp import cubes as c

    lay, nz = case["lay"], case["nz"]
    shape = ([nz] if nz else []) + lay["inner"]
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"

    def level(kind):
        pts = {"height": [5.0, 100, 500], "pressure": [100000.0, 85000, 50000]}[kind]
        pts = np.array(pts[:nz or 1], np.float32)
        if case["desc"]:
            pts = pts[::-1].copy()
        if not nz:
            pts = pts[0]
        return DimCoord(pts, standard_name="height" if kind == "height" else None,
                        long_name=None if kind == "height" else kind,
                        units="m" if kind == "height" else "Pa",
                        attributes={"positive": "up" if kind == "height" else "down"})

    t = np.array(case["t"], float).reshape(shape) / 10
    rh = np.array(case["rh"], float).reshape(shape) / 20
    p = np.array(case["p"], float).reshape(shape) * 100
    kinds = [case["z"]] * 3
    if case["bad"] == "levels":
        if nz < 2:
            o.reject("no levels")
        kinds = ["height", "pressure", "height"]

    bits = np.array(case["bits"], bool).reshape(shape)

    def make(data, name, units, kind):
        number = ["air_temperature", "relative_humidity", "air_pressure"].index(name)
        if case["mask"] == number:
            data = np.ma.MaskedArray(data, mask=bits.copy())
        return c.layout_cube(lay, data.astype(np.float32), name, units, level(kind), attrs)

    cubes = [make(t - (273.15 if case["tu"] != "K" else 0), "air_temperature", case["tu"], kinds[0]),
             make(rh * (100 if case["ru"] == "%" else 1), "relative_humidity", case["ru"], kinds[1]),
             make(p / (100 if case["pu"] == "hPa" else 1), "air_pressure", case["pu"], kinds[2])]
    before = [o.snapshot(x) for x in cubes]
    kw = {"model_id_attr": MODEL} if case["model"] else {}
    if case["precision"]:
        kw["precision"] = case["precision"]
    plugin = WetBulbTemperature(**kw)
    if case["bad"]:
        o.raises(ValueError, plugin, *(cubes[:2] if case["bad"] == "count" else cubes))
        return True
    res = plugin(*[cubes[i] for i in case["order"]])
    for b, x in zip(before, cubes):
        o.unchanged(b, x)
    o.equal((res.name(), str(res.units), res.dtype),
            ("wet_bulb_temperature", "K", np.dtype("f4")), "result")
    o.equal(dict(res.attributes), attrs if case["model"] else c.ATTRS, "attributes")
    o.equal(dims(res), dims(cubes[0]), "dimensions")
    q = qsat(t, p) * rh
    cpm = (1 - q) * CP + q * 1850.0
    h = latent(t) * q + cpm * t
    want = bisect(lambda x: h - latent(t) * qsat(x, p) - cpm * x, t - 100, t + 10)
    got = c.aligned(res, lay, case["z"] if nz else None)
    if nz:                                    # by level, whatever their order
        pts = res.coord(case["z"]).points.tolist()
        got = got[[pts.index(v) for v in cubes[0].coord(case["z"]).points.tolist()]]
        o.equal(sorted(pts), sorted(cubes[0].coord(case["z"]).points.tolist()), "levels")
    gone = bits if case["mask"] is not None else np.zeros(shape, bool)
    o.equal(np.ma.getmaskarray(got).tolist(), gone.tolist(), "missing points")
    got = np.ma.filled(got, 0) * ~gone + want * gone
    o.close(got, want, "wet-bulb temperature", atol=0.03)
    sat = rh < 1
    o.check((got[sat] <= t[sat] + 0.02).all(), "wet-bulb above air temperature")
    for x in cubes[0].coords():
        if x.name() != case["z"]:
            o.same_coord(res.coord(x.name()), x)
    o.label("levels%d" % nz)
    return len(set(case["t"])) > 1


# ---------------------------------------------------------------- integration
def gen_integral():
    from vp import gens as g

    @g.composite
    def case(draw):
        nz = draw(g.integers(2, 5))
        lay = draw(g.layout(nz, max_n=2))
        n = g.size(lay["inner"]) * nz
        h = sorted(draw(g.sampled([[5, 10, 20, 75, 200], [1, 2, 4, 8, 16], [0, 100, 150, 300, 1000]])))
        return {"lay": lay, "h": h[:nz], "desc": draw(g.booleans()),
                "v": draw(g.fixed(n, g.integers(-50, 100))), "pos": draw(g.booleans()),
                "start": draw(g.sampled([None, None, 0, 1, 2, 0.5])),
                "end": draw(g.sampled([None, None, 1, 2, 3, 1.5])),
                "km": draw(g.booleans()), "kelvin": draw(g.booleans()), "model": draw(g.booleans())}

    return case()


def integrate(heights, data, positive, start, end):
    """Cumulative integrals: list of (point, bounds, field) in the direction of integration."""
    order = np.argsort(heights)
    if not positive:
        order = order[::-1]
    pos = np.maximum(data, 0)
    out, total = [], 0.0
    for a, b in zip(order[:-1], order[1:]):
        lo, hi = sorted((heights[a], heights[b]))
        if positive and ((start is not None and lo < start) or (end is not None and hi > end)):
            continue
        if not positive and ((start is not None and hi > start) or (end is not None and lo < end)):
            continue
        total = total + 0.5 * (hi - lo) * (pos[a] + pos[b])
        out.append((heights[b], [lo, hi], total))
    return out


def run_integral(case):
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperatureIntegral
    from improver.utilities.mathematical_operations import Integration
    from iris.coords import DimCoord
    from vp import cubes as c

    lay, h = case["lay"], np.array(case["h"], float)
    nz = len(h)
    data = np.array(case["v"], float).reshape([nz] + lay["inner"]) / 10
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    i = np.arange(nz)[::-1] if case["desc"] else np.arange(nz)

    def cube(name, units, vals, km=False):
        z = DimCoord((h[i] / (1000 if km else 1)).astype(np.float32), standard_name="height",
                     units="km" if km else "m", attributes={"positive": "up"})
        return c.layout_cube(lay, vals[i].astype(np.float32), name, units, z, attrs)

    def compare(res, want, inp, what):
        z = res.coord("height")
        pts = z.points.astype(float).tolist()
        o.close(sorted(pts), sorted(w[0] for w in want), what + " levels")
        got = c.aligned(res, lay, "height")
        for point, bounds, field in want:
            k = int(np.argmin(np.abs(np.array(pts) - point)))
            o.close(got[k], field, what + " at %s" % point, rtol=1e-5, atol=1e-3)
            o.close(sorted(z.bounds[k].tolist()), bounds, what + " bounds", atol=1e-3)
        o.equal(dims(res), dims(inp), what + " dimensions")
        o.equal((res.dtype, z.dtype, z.bounds.dtype), (np.dtype("f4"),) * 3, what + " types")
        for x in inp.coords():
            if x.name() != "height":
                o.same_coord(res.coord(x.name()), x)

    pts = {None: None}
    pts.update({k: float(h[k]) for k in range(nz)})
    start = case["start"]
    end = case["end"]
    start = None if start is None else float(np.interp(start, range(nz), h))
    end = None if end is None else float(np.interp(end, range(nz), h))
    if not case["pos"]:
        start, end = end, start
    want = integrate(h, data, case["pos"], start, end)
    inp = cube("air_temperature", "celsius", data)
    before = o.snapshot(inp)
    plugin = Integration("height", start_point=start, end_point=end,
                         positive_integration=case["pos"])
    if not want:
        o.raises(ValueError, plugin, inp)
    else:
        res = plugin(inp)
        compare(res, want, inp, "integral")
        o.equal((res.name(), str(res.units)), ("air_temperature_integral", "celsius m"), "result")
        o.equal(dict(res.attributes), c.ATTRS, "attributes")
    o.unchanged(before, inp)
    # wet-bulb temperature integral
    inp = cube("wet_bulb_temperature", "K" if case["kelvin"] else "celsius",
               data + (273.15 if case["kelvin"] else 0), case["km"])
    before = o.snapshot(inp)
    res = WetBulbTemperatureIntegral(**({"model_id_attr": MODEL} if case["model"] else {}))(inp)
    o.unchanged(before, inp)
    want = integrate(h, data, False, None, None)
    z = res.coord("height")
    o.equal((res.name(), str(res.units), str(z.units)),
            ("wet_bulb_temperature_integral", "K m", "m"), "result")
    o.equal(dict(res.attributes), attrs if case["model"] else c.ATTRS, "attributes")
    got = c.aligned(res, lay, "height")
    for point, bounds, field in want:
        k = int(np.argmin(np.abs(z.points - point)))
        o.close(got[k], field, "wet-bulb integral at %s" % point, rtol=1e-4, atol=0.1)
        o.close(z.points[k], point, "level", atol=1e-3)
        o.close(sorted(z.bounds[k].tolist()), bounds, "bounds", atol=1e-3)
    o.equal(len(z.points), nz - 1, "number of levels")
    return bool((data > 0).any())


# ---------------------------------------------------------------- cloud levels
def gen_cloud():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization", "time"), spot=False, max_n=2, pos=False))
        n = g.size(lay["inner"])
        nz = draw(g.integers(1, 5))
        return {"lay": lay, "t": draw(g.fixed(n, g.integers(2450, 3080))),
                "rh": draw(g.fixed(n, g.integers(8, 19))), "p": draw(g.fixed(n, g.integers(850, 1040))),
                "nz": nz, "zpos": draw(g.integers(0, 1)),
                "env": draw(g.fixed(n * nz, g.integers(-120, 40))),
                "drop": draw(g.sampled([0, 0, 20, 40])),
                "model": draw(g.booleans()), "differ": draw(g.integers(0, 3)) == 0,
                "height": draw(g.booleans()), "tu": draw(g.sampled(["K", "K", "celsius"])),
                "pu": draw(g.sampled(["Pa", "Pa", "hPa"])), "meta": draw(g.booleans())}

    return case()


def run_cloud(case):
    from improver.psychrometric_calculations.cloud_condensation_level import (
        CloudCondensationLevel, MetaCloudCondensationLevel)
    from improver.psychrometric_calculations.cloud_top_temperature import CloudTopTemperature
    from improver.psychrometric_calculations.psychrometric_calculations import HumidityMixingRatio
    from iris.coords import DimCoord
    from iris.cube import CubeList
    from vp import cubes as c

    lay = case["lay"]
    shape = lay["inner"]
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    other = dict(attrs, title="Other") if case["differ"] else attrs
    t = (np.array(case["t"], float) / 10).reshape(shape)
    rh = np.array(case["rh"], float).reshape(shape) / 20
    p = np.array(case["p"], float).reshape(shape) * 100
    scal = []
    if case["height"]:
        scal = [DimCoord(np.float32(1.5), standard_name="height", units="m")]

    def make(vals, name, units, at=attrs, **kw):
        return c.layout_cube(lay, vals.astype(np.float32), name, units, attributes=at, **kw)

    tc = make(t, "air_temperature", "K", scalars=scal)
    pc = make(p, "surface_air_pressure", "Pa", other)
    rc = make(rh, "relative_humidity", "1")
    before = [o.snapshot(x) for x in (tc, pc, rc)]
    kw = {"model_id_attr": MODEL} if case["model"] else {}
    mand = dict(c.ATTRS, title="unknown") if case["differ"] else dict(c.ATTRS)
    want_a = dict(mand, **{MODEL: "uk_ens"}) if case["model"] else mand
    hum = HumidityMixingRatio(**kw)(CubeList([rc, tc, pc]))
    o.close(c.aligned(hum, lay), qsat(t, p) * rh, "humidity mixing ratio", rtol=1e-3)
    o.equal((hum.name(), str(hum.units), hum.dtype),
            ("humidity_mixing_ratio", "kg kg-1", np.dtype("f4")), "humidity")
    o.equal(dict(hum.attributes), want_a, "attributes of humidity")
    q = c.aligned(hum, lay).astype(float)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if case["meta"]:
            ct, cpr = MetaCloudCondensationLevel(**kw)(tc, pc, rc)
        else:
            ct, cpr = CloudCondensationLevel(**kw)(tc, pc, hum)
    for b, x in zip(before, (tc, pc, rc)):
        o.unchanged(b, x)
    want_c = dict(want_a)
    if want_c["title"] != "unknown":
        want_c["title"] = "Post-Processed " + want_c["title"]
    want_p = bisect(lambda x: qsat(t * (x / p) ** (RD / CP), x) - q, p, p * 0 + 5000)
    got_t, got_p = c.aligned(ct, lay).astype(float), c.aligned(cpr, lay).astype(float)
    o.close(got_p, want_p, "condensation pressure", atol=300)
    o.close(got_t, t * (got_p / p) ** (RD / CP), "condensation temperature", atol=1e-2)
    for x, name, units in ((ct, "air_temperature_at_condensation_level", "K"),
                           (cpr, "air_pressure_at_condensation_level", "Pa")):
        o.equal((x.name(), str(x.units), x.dtype), (name, units, np.dtype("f4")), "result")
        o.equal(x.coords("height"), [], "height")
        o.equal(dims(x), dims(tc), "dimensions")
        for y in tc.coords():
            if y.name() != "height":
                o.same_coord(x.coord(y.name()), y)
    o.equal([dict(x.attributes) for x in (ct, cpr)], [want_c] * 2,
            "attributes")
    # cloud top
    nz = case["nz"]
    levels = np.array([95000.0, 85000, 70000, 50000, 30000][:nz])
    tb, pb = got_t, got_p
    env = np.empty([nz] + shape)
    qb = qsat(tb, pb)
    par = np.empty([nz] + shape)
    for k in range(nz):
        dry = tb * (levels[k] / pb) ** (RD / CP)
        par[k] = condense(dry, qb, np.full(shape, levels[k]))[0]
    eps = (np.array(case["env"], float) - case["drop"]).reshape([nz] + shape) / 10 + 0.053
    env = par + eps
    lead = lay["k"] and 1
    zc = DimCoord(levels.astype(np.float32), long_name="pressure", units="Pa",
                  attributes={"positive": "down"})
    sub = dict(lay, dims=["main"] + lay["dims"])
    if lead and case["zpos"]:
        sub["dims"] = [lay["dims"][0], "main"] + lay["dims"][1:]
    ec = c.layout_cube(sub, (env - (273.15 if case["tu"] != "K" else 0)).astype(np.float32),
                       "air_temperature", case["tu"], zc, attrs)
    tcc = make(tb - (273.15 if case["tu"] != "K" else 0), "air_temperature_at_condensation_level",
               case["tu"])
    pcc = make(pb / (100 if case["pu"] == "hPa" else 1), "air_pressure_at_condensation_level",
               case["pu"], other)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = CloudTopTemperature(**kw)(ec, tcc, pcc)
    top = tb.copy()
    alive = np.ones(shape, bool)
    for k in range(nz):
        alive &= ~((eps[k] > 0) & (levels[k] < pb))
        top = np.where(alive, par[k], top)
    gone = tb - top < 4
    sure = (np.abs(tb - top - 4) > 0.05) & (np.abs(pb[None] - levels.reshape(
        [nz] + [1] * len(shape))) > 1).all(axis=0)
    got = c.aligned(res, lay)
    gm = np.ma.getmaskarray(got)
    o.equal(gm[sure].tolist(), gone[sure].tolist(), "no cloud")
    ok = sure & ~gone
    if ok.any():
        o.close(np.ma.getdata(got)[ok], top[ok], "cloud top temperature", atol=0.04)
    o.equal((res.name(), str(res.units), res.dtype),
            ("air_temperature_at_convective_cloud_top", "K", np.dtype("f4")), "result")
    o.equal(dict(res.attributes), want_c, "attributes of the cloud top")
    o.label("cloud" if ok.any() else "clear", "nz%d" % nz)
    return bool(ok.any())


SUBS = {"funcs": Sub(gen_funcs, run_funcs, 2), "wetbulb": Sub(gen_wetbulb, run_wetbulb, 2),
        "integral": Sub(gen_integral, run_integral, 2), "cloud": Sub(gen_cloud, run_cloud, 2)}
