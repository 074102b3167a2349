"""C29: precipitation types: rain, snow, sleet, hail and freezing rain; showers; low cloud."""
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: rates, amounts and probabilities of rain, snow, sleet, temperature, cloud, updraught "
        "and visibility on grids and sites of any layout, with realizations that agree or not, "
        "thresholds, masks, dry areas and units; non-trivial when the result is not uniform")
QUICK = 2400
THOROUGH = 40000
MODEL = "mosg__model_configuration"


def dims(cube):
    return [x.name() for x in cube.coords(dim_coords=True)]


def post(attrs):
    """Attributes after post-processing."""
    out = dict(attrs)
    if "title" in out and out["title"] != "unknown":
        out["title"] = "Post-Processed " + out["title"]
    return out


# ---------------------------------------------------------------- sleet and convective ratio
def gen_simple():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0))
        n = g.size(lay["inner"])
        return {"lay": lay, "a": draw(g.fixed(n, g.integers(0, 20))),
                "b": draw(g.fixed(n, g.integers(0, 20))), "cat": draw(g.booleans()),
                "neg": draw(g.integers(0, 6)) == 0, "differ": draw(g.booleans()),
                "units": draw(g.sampled(["m s-1", "mm h-1", "mm s-1"])),
                "units2": draw(g.sampled(["m s-1", "m s-1", "mm h-1"])),
                "mask": draw(g.sampled([None, None, 0, 1])), "bits": draw(g.fixed(n, g.integers(0, 1))),
                "tiny": draw(g.booleans()), "model": draw(g.booleans()), "swap": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 8 + ["name", "units", "twice"]))}

    return case()


def run_simple(case):
    from improver.precipitation_type.calculate_sleet_prob import calculate_sleet_probability
    from improver.precipitation_type.convection import ConvectionRatioFromComponents
    from vp import cubes as c

    lay = case["lay"]
    shape = lay["inner"]
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    other = dict(attrs, title="Other") if case["differ"] else attrs
    a = np.array(case["a"], float).reshape(shape)
    b = np.array(case["b"], float).reshape(shape)
    if case["cat"]:
        pa, pb = (a > 10).astype(np.int8), ((a <= 10) & (b > 10)).astype(np.int8)
        if case["neg"]:
            pb.flat[0] = pa.flat[0] = 1
    else:
        pa, pb = (a / 20).astype(np.float32), (np.minimum(b, 20 - a) / 20).astype(np.float32)
        if case["neg"]:
            pb.flat[0], pa.flat[0] = 0.7, 0.5
    snow = c.layout_cube(lay, pa, "probability_of_snow_at_surface", "1", attributes=attrs)
    rain = c.layout_cube(lay, pb, "probability_of_rain_at_surface", "1", attributes=other)
    if case["neg"]:
        o.raises(ValueError, calculate_sleet_probability, snow, rain)
    else:
        before = [o.snapshot(x) for x in (snow, rain)]
        res = calculate_sleet_probability(snow, rain)
        for x, y in zip(before, (snow, rain)):
            o.unchanged(x, y)
        o.close(c.aligned(res, lay), 1.0 - pa.astype(float) - pb, "probability of sleet", atol=1e-6)
        o.equal((res.name(), str(res.units), res.dtype), ("probability_of_sleet", "1", pa.dtype),
                "result")
        o.equal(dict(res.attributes), dict(c.ATTRS, title="unknown") if case["differ"] else c.ATTRS,
                "attributes")
        o.equal(dims(res), dims(snow), "dimensions")
        for x in snow.coords():
            o.same_coord(res.coord(x.name()), x)
    # convective ratio
    per = {"m s-1": 1.0, "mm h-1": 1000 * 3600.0, "mm s-1": 1000.0}
    size = 3e-9 / 20 if case["tiny"] else 1e-6
    conv, dyn = a * size, b * size
    bits = np.array(case["bits"], bool).reshape(shape)

    def make(vals, name, units, number, at):
        data = (vals * per[units]).astype(np.float32)
        if case["mask"] == number:
            data = np.ma.MaskedArray(data, mask=bits.copy())
        return c.layout_cube(lay, data, name, units, attributes=at)

    cc = make(conv, "lwe_convective_precipitation_rate", case["units"], 0, attrs)
    dc = make(dyn, "lwe_stratiform_precipitation_rate", case["units2"], 1, other)
    kw = {"model_id_attr": MODEL} if case["model"] else {}
    plugin = ConvectionRatioFromComponents()
    if case["bad"] == "name":
        dc.rename("rainfall_rate")
    elif case["bad"] == "units":
        dc.units = "kg"
    cubes = [dc, cc] if case["swap"] else [cc, dc]
    if case["bad"] == "twice":
        cubes = [cc, cc.copy()]
    if case["bad"]:
        o.raises(ValueError, plugin, cubes, **kw)
        return True
    before = [o.snapshot(x) for x in cubes]
    res = plugin(cubes, **kw)
    for x, y in zip(before, cubes):
        o.unchanged(x, y)
    total = conv + dyn
    gone = total <= 1e-9
    if case["mask"] is not None:
        gone |= bits
    sure = np.abs(total - 1e-9) > 1e-13
    got = c.aligned(res, lay)
    o.equal(np.ma.getmaskarray(got)[sure].tolist(), gone[sure].tolist(), "mask of the ratio")
    ok = sure & ~gone
    if ok.any():
        o.close(np.ma.getdata(got)[ok], conv[ok] / total[ok], "convective ratio", rtol=1e-4)
    o.equal((res.name(), str(res.units), res.dtype), ("convective_ratio", "1", np.dtype("f4")),
            "result")
    o.equal(dict(res.attributes), attrs if case["model"] else c.ATTRS, "attributes")
    o.equal(dims(res), dims(cc), "dimensions")
    return len(set(case["a"])) > 1


# ---------------------------------------------------------------- freezing rain
def gen_freezing():
    from vp import gens as g

    @g.composite
    def case(draw):
        nt = draw(g.integers(1, 3))
        lay = draw(g.layout(nt, leads=("none", "realization", "realization", "time"), pos=False))
        if lay["lead"] == "realization":
            m = draw(g.integers(1, 4))
            lay["k"], lay["inner"] = m, [m] + lay["inner"][1:]
        n = g.size(lay["inner"]) * nt
        return {"lay": lay, "nt": nt, "rain": draw(g.fixed(n, g.integers(0, 10))),
                "sleet": draw(g.fixed(n, g.integers(0, 10))),
                "temp": draw(g.fixed(n * 2, g.integers(0, 20))), "above": draw(g.booleans()),
                "tunits": draw(g.sampled(["K", "celsius"])), "extra": draw(g.sampled([None, 0, 1])),
                "su": draw(g.sampled(["m s-1", "m s-1", "mm h-1"])),
                "drop": [draw(g.sampled([None, None, 0, 1])) for _ in range(3)],
                "period": draw(g.booleans()), "order": draw(g.permutation(3)),
                "model": draw(g.booleans()), "zpos": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 12 + ["count", "time", "grid", "thresholds", "number",
                                                     "freezing", "names", "units"]))}

    return case()


def run_freezing(case):
    from improver.precipitation_type.freezing_rain import FreezingRain
    from vp import cubes as c

    lay, nt, bad = case["lay"], case["nt"], case["bad"]
    k, ens = lay["k"], lay["lead"] == "realization" and lay["k"] > 0
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    lay = dict(lay)
    lay["times"] = dict(lay["times"], period=3600 if case["period"] else None)
    kind = "thickness_of_%sfall_amount" if case["period"] else "%sfall_rate"
    unit = "m" if case["period"] else "m s-1"
    inner = lay["inner"]
    full = [nt] + inner
    rain = np.array(case["rain"], float).reshape(full) / 20
    sleet = np.array(case["sleet"], float).reshape(full) / 20
    nx = 1 if case["extra"] is None else 2
    temp = (np.array(case["temp"], float) / 20)[:int(np.prod([nx] + inner))].reshape([nx] + inner)
    pts = np.array([2.0, 5.0, 9.0][:nt], np.float32) * 1e-6
    if case["zpos"] and ens:
        lay["dims"] = [lay["lead"], "main"] + lay["dims"][2:]

    def pick(cube, member):
        """Drop a member, when others remain."""
        if not ens or member is None or member >= k or k == 1:
            return cube, list(range(k))
        keep = [i for i in range(k) if i != member]
        axis = cube.coord_dims("realization")[0]
        return cube[tuple([slice(None)] * axis + [np.array(keep)])], keep

    def precip(data, base, units, scale):
        name = kind % base
        if base == "sleet":
            name = "lwe_" + name
        p = pts.copy()
        if bad == "thresholds" and base == "sleet":
            p = p * 1.5
        if bad == "number" and base == "sleet":
            data = np.concatenate([data, data[-1:]])
            p = np.append(p, np.float32(2e-5))
        coord = c.threshold_coord(p * scale, name, units)
        sub = lay
        if bad == "grid" and base == "rain":
            sub = dict(lay, grid=dict(lay["grid"], y0=lay["grid"]["y0"] + 1))
        if bad == "time" and base == "rain":
            sub = dict(lay, times=dict(lay["times"], frt=lay["times"]["frt"] + 3600))
        return c.layout_cube(sub, data.astype(np.float32),
                             "probability_of_%s_above_threshold" % name, "1", coord, attrs)

    su = case["su"] if not case["period"] else "m"
    if bad == "units":
        su = "K"
    rc, rm = pick(precip(rain, "rain", unit, 1), case["drop"][0])
    sc, sm = pick(precip(sleet, "sleet", su, np.float32(3.6e6) if su == "mm h-1" else 1), case["drop"][1])
    if su == "mm h-1" and bad not in ("thresholds", "number"):       # exact after conversion back
        y = sc.coord(var_name="threshold").copy()
        y.convert_units(unit)
        x = rc.coord(var_name="threshold")
        x.points = y.points.copy()
    tp = [273.15] if case["extra"] is None else ([270.15, 273.15] if case["extra"] == 0
                                                 else [273.15, 275.15])
    if bad == "freezing":
        tp = [x + 1 for x in tp]
    if case["tunits"] == "celsius":
        tp = [x - 273.15 for x in tp]
    at = 0 if case["extra"] != 0 else 1
    tdata = (1 - temp if case["above"] else temp).astype(np.float32)
    tattrs = dict(attrs, **{MODEL: "uk_det"})
    tc, tm = pick(c.layout_cube(
        lay, tdata, "probability_of_air_temperature_%s_threshold" % ("above" if case["above"] else "below"),
        "1", c.threshold_coord(tp, "air_temperature", case["tunits"],
                               "above" if case["above"] else "below"), tattrs), case["drop"][2])
    if bad == "names":
        tc.rename("probability_of_sleet_temperature_below_threshold")
    cubes = [[rc, sc, tc][i] for i in case["order"]]
    plugin = FreezingRain(**({"model_id_attr": MODEL} if case["model"] else {}))
    if bad:
        if bad == "grid" and lay["spot"]:
            o.reject("no grid")
        o.raises(ValueError, plugin, *(cubes[:2] if bad == "count" else cubes))
        return True
    common = sorted(set(rm) & set(sm) & set(tm)) if ens else []
    if ens and not common:
        o.raises(ValueError, plugin, *cubes)
        return True
    res = plugin(*cubes)
    want = (rain + sleet) * temp[at]
    sub = dict(lay)
    if ens:
        want = want[:, common].mean(axis=1)
        sub = dict(lay, k=0, lead="none")
    got = c.aligned(res, sub, sc.coord(var_name="threshold").name().replace("sleet", "freezing_rain"))
    o.close(got, want, "probability of freezing rain", atol=1e-5)
    name = "lwe_" + kind % "freezing_rain"
    o.equal((res.name(), str(res.units), res.dtype),
            ("probability_of_%s_above_threshold" % name, "1", np.dtype("f4")), "result")
    x = res.coord(var_name="threshold")
    o.equal(x.name(), name, "threshold")
    o.close(x.points, sc.coord(var_name="threshold").points, "thresholds")
    o.equal(res.coords("realization"), [], "realizations")
    o.equal(dict(res.attributes), post(attrs if case["model"] else c.ATTRS), "attributes")
    for y in ("time", "forecast_period", "forecast_reference_time"):
        o.same_coord(res.coord(y), sc.coord(y))
    o.label("members%d" % len(common), lay["lead"])
    return bool(want.max() > want.min())


# ---------------------------------------------------------------- snow
def gen_snow():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, spot=False, max_n=4))
        n = g.size(lay["inner"])
        return {"lay": lay, "rain": draw(g.fixed(n, g.sampled([0, 0, 0, 1, 2, 5]))),
                "snow": draw(g.fixed(n, g.sampled([0, 0, 0, 1, 3]))),
                "p": draw(g.fixed(n, g.sampled([0, 0, 1, 2]))), "q": draw(g.fixed(n, g.integers(0, 4))),
                "acc": draw(g.booleans()), "swap": draw(g.booleans()), "units": draw(g.booleans()),
                "falsemask": draw(g.booleans()), "model": draw(g.booleans()),
                "israin": draw(g.booleans()), "whole": draw(g.integers(0, 4)) == 0,
                "order": draw(g.permutation(3)),
                "bad": draw(g.sampled([None] * 10 + ["count", "grid", "time", "mask", "names", "same",
                                                     "units", "both"]))}

    return case()


def run_snow(case):
    from improver.precipitation_type.snow_fraction import SnowFraction
    from improver.precipitation_type.snow_splitter import SnowSplitter
    from iris.cube import CubeList
    from vp import cubes as c

    lay, bad = dict(case["lay"]), case["bad"]
    shape = lay["inner"]
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    if case["acc"]:
        lay["times"] = dict(lay["times"], period=3600)
        names = ("thickness_of_rainfall_amount", "lwe_thickness_of_snowfall_amount")
        unit, alt = "m", "mm"
    else:
        lay["times"] = dict(lay["times"], period=None)
        names = ("rainfall_rate", "lwe_snowfall_rate")
        unit, alt = "m s-1", "mm s-1"
    rain = np.array(case["rain"], float).reshape(shape)
    snow = np.array(case["snow"], float).reshape(shape)

    def make(vals, name, units, sub=lay):
        data = (vals * (1000 if units == alt else 1)).astype(np.float32)
        if case["falsemask"]:
            data = np.ma.MaskedArray(data, mask=np.zeros(shape, bool))
        return c.layout_cube(sub, data, name, units, attributes=attrs)

    sub = lay
    if bad == "grid":
        sub = dict(lay, grid=dict(lay["grid"], y0=lay["grid"]["y0"] + 1))
    elif bad == "time":
        sub = dict(lay, times=dict(lay["times"], frt=lay["times"]["frt"] + 3600))
    rc = make(rain, names[0], unit)
    sc = make(snow, names[1], alt if case["units"] else unit, sub)
    if bad == "mask":
        sc.data = np.ma.MaskedArray(np.ma.getdata(sc.data), mask=np.ones(sc.shape, bool))
    elif bad == "names":
        rc.rename("precipitation_rate")
    elif bad == "same":
        sc.rename("rain_and_snow")
        rc.rename("rain_and_snow")
    elif bad == "units":
        sc.units = "K"
    cubes = CubeList([sc, rc] if case["swap"] else [rc, sc])
    plugin = SnowFraction(**({"model_id_attr": MODEL} if case["model"] else {}))
    if bad and bad != "both":
        o.raises(ValueError, plugin, CubeList(cubes[:1]) if bad == "count" else cubes)
        return True
    res = plugin(cubes)
    got = c.aligned(res, lay).reshape([-1] + shape[-2:])
    o.equal((res.name(), str(res.units), res.dtype), ("snow_fraction", "1", np.dtype("f4")),
            "result")
    o.equal(dict(res.attributes), post(attrs if case["model"] else c.ATTRS), "attributes")
    r, s = rain.reshape(got.shape), snow.reshape(got.shape)
    some = False
    for k in range(got.shape[0]):
        wet = np.argwhere(r[k] + s[k] > 0)
        if not len(wet):
            o.check(not np.isfinite(got[k]).any() or ((got[k] >= 0) & (got[k] <= 1)).all(),
                    "dry fields")
            continue
        some |= len(wet) < r[k].size
        for i in np.ndindex(*r[k].shape):
            d = ((wet - np.array(i)) ** 2).sum(axis=1)
            near = wet[d == d.min()]
            want = [s[k][tuple(j)] / (r[k][tuple(j)] + s[k][tuple(j)]) for j in near]
            o.check(min(abs(got[k][i] - w) for w in want) < 1e-5,
                    "snow fraction at %s: %s, expected one of %s" % (i, got[k][i], want))
    # splitting precipitation
    p = np.array(case["p"]).reshape(shape)
    ra, sn = (p == 1).astype(np.int8), (p == 2).astype(np.int8)
    if not case["whole"]:
        ra, sn = (ra * 0.75 + 0.25 * (p == 0)).astype(np.float32), (sn * 0.5).astype(np.float32)
    if bad == "both":
        ra.flat[0] = sn.flat[0] = 1
    total = np.array(case["q"], float).reshape(shape)
    name = ("lwe_thickness_of_precipitation_amount" if case["acc"] else "lwe_precipitation_rate")
    a = c.layout_cube(lay, ra, "probability_of_rain_at_surface", "1", attributes=attrs)
    b = c.layout_cube(lay, sn, "probability_of_snow_at_surface", "1", attributes=attrs)
    d = c.layout_cube(lay, total.astype(np.float32), name, unit, attributes=attrs)
    cubes = [[a, b, d][i] for i in case["order"]]
    before = [o.snapshot(x) for x in cubes]
    if bad == "both":
        o.raises(ValueError, SnowSplitter(output_is_rain=case["israin"]), *cubes)
        return True
    parts = []
    for is_rain in (True, False):
        res = SnowSplitter(output_is_rain=is_rain)(*cubes)
        for x, y in zip(before, cubes):
            o.unchanged(x, y)
        x, y = (ra, sn) if is_rain else (sn, ra)
        got = c.aligned(res, lay)
        o.close(got, total * (x.astype(float) - y + 1) / 2, "rain" if is_rain else "snow", rtol=1e-5)
        parts.append(got)
        want = name.replace("precipitation", "rainfall" if is_rain else "snowfall")
        if is_rain:
            want = want.replace("lwe_", "")
        o.equal((res.name(), str(res.units), res.dtype), (want, unit, np.dtype("f4")), "result")
        o.equal(dims(res), [z for z in dims(d) if z in dims(res)], "dimensions")
        for z in dims(d):
            o.check(z in dims(res) or d.coord(z).shape[0] == 1, "dimension %s was lost" % z)
        for z in d.coords():
            o.equal((res.coord(z.name()).points.tolist(), res.coord(z.name()).units),
                    (z.points.tolist(), z.units), z.name())
    o.close(parts[0] + parts[1], total, "sum of rain and snow", rtol=1e-5)
    return some


# ---------------------------------------------------------------- hail and showers
def gen_hailfrac():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0))
        n = g.size(lay["inner"])
        return {"lay": lay, "w": draw(g.fixed(n, g.integers(0, 60))),
                "size": draw(g.fixed(n, g.sampled([0, 0, 1, 1.9, 2.1, 10]))),
                "ccl": draw(g.fixed(n, g.sampled([267, 268.1, 268.2, 275, 285]))),
                "cct": draw(g.fixed(n, g.sampled([220, 258.1, 258.2, 265]))),
                "melt": draw(g.fixed(n, g.sampled([-10, 0, 99, 101, 900]))),
                "orog": draw(g.fixed(n, g.sampled([100, 100, 0.5, 950]))),
                "wu": draw(g.sampled(["m s-1", "m s-1", "knots"])), "su": draw(g.sampled(["m", "mm"])),
                "tu": draw(g.sampled(["K", "celsius"])), "zu": draw(g.sampled(["m", "km"])),
                "order": draw(g.permutation(6)), "model": draw(g.booleans()),
                "differ": draw(g.sampled([None, None, 0, 3, 5])), "bad": draw(g.integers(0, 9)) == 0,
                "cloud": draw(g.fixed(n, g.integers(0, 16))), "conv": draw(g.fixed(n, g.integers(0, 20))),
                "masked": draw(g.booleans()), "bits": draw(g.fixed(n, g.integers(0, 1))),
                "ct": draw(g.sampled([None, 0.5, 0.26])), "vt": draw(g.sampled([None, 0.31])),
                "bad2": draw(g.sampled([None] * 9 + ["name", "shape"]))}

    return case()


def run_hailfrac(case):
    from improver.precipitation_type.hail_fraction import HailFraction
    from improver.precipitation_type.shower_condition_probability import ShowerConditionProbability
    from iris.cube import CubeList
    from vp import cubes as c

    lay = case["lay"]
    shape = lay["inner"]
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    v = {x: np.array(case[x], float).reshape(shape) for x in ("w", "size", "ccl", "cct", "melt")}
    space = shape[-1:] if lay["spot"] else shape[-2:]
    orog = np.array(case["orog"], float)[:int(np.prod(space))].reshape(space)
    wu = 1 / (1852 / 3600.0) if case["wu"] == "knots" else 1
    su = 1000 if case["su"] == "mm" else 1
    zu = 0.001 if case["zu"] == "km" else 1
    tu = -273.15 if case["tu"] != "K" else 0
    fields = [(v["w"] * wu, "maximum_vertical_updraught", case["wu"]),
              (v["size"] / 1000 * su, "diameter_of_hail_stones", case["su"]),
              (v["ccl"] + tu, "air_temperature_at_condensation_level", case["tu"]),
              (v["cct"] + tu, "air_temperature_at_convective_cloud_top", case["tu"]),
              (v["melt"] * zu, "altitude_of_rain_from_hail_falling_level", case["zu"])]
    cubes = []
    for i, (data, name, units) in enumerate(fields):
        at = dict(attrs, title="Other") if case["differ"] == i else attrs
        cubes.append(c.layout_cube(lay, data.astype(np.float32), name, units, attributes=at))
    sub = dict(lay, k=0, lead="none", inner=space,
               dims=[x for x in lay["dims"] if x != lay["lead"]])
    if case["bad"] and not lay["spot"]:
        sub["grid"] = dict(lay["grid"], y0=lay["grid"]["y0"] + 1)
    cubes.append(c.layout_cube(sub, (orog * zu).astype(np.float32), "surface_altitude", case["zu"],
                               attributes=dict(c.ATTRS, title="Orography")))
    usual = dims(cubes[0])[-len(space):] == dims(cubes[5])
    want = np.interp(v["w"], [5, 50], [0, 0.25])
    want[(v["ccl"] < 268.15) | (v["cct"] > 258.15) | (v["melt"] > orog)] = 0
    want[(v["size"] > 2) & (want < 0.05)] = 0.05
    mixed = [cubes[i] for i in case["order"]]
    kw = {"model_id_attr": MODEL} if case["model"] else {}
    first = dims(cubes[0])
    if case["bad"] and not lay["spot"]:
        o.raises(ValueError, HailFraction(**kw), *mixed)
    elif usual:
        res = HailFraction(**kw)(*mixed)
        o.close(c.aligned(res, lay), want, "hail fraction", atol=1e-5)
        o.equal((res.name(), str(res.units), res.dtype), ("hail_fraction", "1", np.dtype("f4")),
                "result")
        at = dict(attrs) if case["model"] else dict(c.ATTRS)
        if case["differ"] in (0, 3):
            at["title"] = "unknown"
        o.equal(dict(res.attributes), post(at), "attributes")
        o.equal(dims(res), first, "dimensions")
    # showers
    cloud = np.array(case["cloud"], float).reshape(shape) / 16 + 0.013
    conv = np.array(case["conv"], float).reshape(shape) / 20 + 0.013
    bits = np.array(case["bits"], bool).reshape(shape)
    data = conv.astype(np.float32)
    if case["masked"]:
        data = np.ma.MaskedArray(data, mask=bits.copy())
        conv = np.where(bits, 0, conv)
    if lay["k"] == 1 and lay["lead"] == "realization":      # lost when thresholding
        o.label("single member")
        return len(np.unique(want)) > 1
    ca = c.layout_cube(lay, cloud.astype(np.float32), "cloud_area_fraction", "1", attributes=attrs)
    cv = c.layout_cube(lay, data, "rain" if case["bad2"] == "name" else "convective_ratio", "1",
                       attributes=attrs)
    args = {}
    if case["ct"]:
        args["cloud_threshold"] = case["ct"]
    if case["vt"]:
        args["convection_threshold"] = case["vt"]
    plugin = ShowerConditionProbability(**args, **kw)
    if case["bad2"] == "shape":
        if lay["k"] < 2:
            o.reject("no members")
        cv = cv[tuple(slice(0, -1) if i == cv.coord_dims(lay["lead"])[0] else slice(None)
                      for i in range(cv.ndim))]
    if case["bad2"]:
        o.raises(ValueError, plugin, CubeList([cv, ca]))
        return True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = plugin(CubeList([cv, ca]))
    want2 = ((cloud <= (case["ct"] or 0.8125)) | (conv > (case["vt"] or 0.8))).astype(float)
    if lay["lead"] == "realization" and lay["k"]:
        want2 = want2.mean(axis=0)
    got = np.ma.getdata(res.data)
    order = [x for x in dims(ca) if x in dims(res)]
    if set(dims(res)) == set(x for x in dims(ca) if ca.coord(x).shape[0] > 1 and x != "realization"):
        # squeezed: compare in the order of the time/space dimensions
        names = ([lay["lead"]] if lay["k"] and lay["lead"] == "time" else []) + (
            ["spot_index"] if lay["spot"] else [ca.coord(axis=a).name() for a in "yx"])
        names = [x for x in names if x in dims(res)]
        got = got.transpose([dims(res).index(x) for x in names])
        o.close(got, np.squeeze(want2), "shower probability", atol=1e-5)
    else:
        o.check(False, "dimensions of the shower probability: %s" % (dims(res),))
    o.equal((res.name(), str(res.units), res.dtype),
            ("probability_of_shower_condition_above_threshold", "1", np.dtype("f4")), "result")
    x = res.coord("shower_condition")
    o.equal((x.var_name, x.points.tolist(), str(x.units)), ("threshold", [1.0], "1"), "threshold")
    o.equal(dict(res.attributes), post(attrs if case["model"] else c.ATTRS), "attributes")
    return len(np.unique(want)) > 1 or len(np.unique(want2)) > 1


# ---------------------------------------------------------------- visibility and low cloud
def gen_visibility():
    from vp import gens as g

    @g.composite
    def case(draw):
        nt = draw(g.integers(1, 4))
        lay = draw(g.layout(nt, leads=("none",)))
        n = g.size(lay["inner"])
        return {"lay": lay, "nt": nt, "v": draw(g.fixed(n * nt, g.integers(0, 20))),
                "b": draw(g.fixed(n, g.integers(0, 20))), "above": draw(g.booleans()),
                "initial": draw(g.sampled([0.6, 0, 1, 0.25])),
                "base": draw(g.sampled([10.0, 100.0])), "first": draw(g.sampled([5000, 1000, 2000])), "swap": draw(g.booleans()),
                "nested": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 9 + ["count", "name", "prob", "prob2"]))}

    return case()


def run_visibility(case):
    from improver.visibility.visibility_combine_cloud_base import VisibilityCombineCloudBase
    from iris.coords import AuxCoord
    from iris.cube import CubeList
    from vp import cubes as c

    lay, nt, bad = case["lay"], case["nt"], case["bad"]
    shape = lay["inner"]
    pts = np.array([50.0, 1000, 2000, 10000])[:nt] if case["first"] != 2000 else np.array(
        [0.0, 500, 1500, 2500])[:nt]
    v = np.array(case["v"], float).reshape([nt] + shape) / 20
    b = np.array(case["b"], float).reshape(shape) / 20
    rel = "above" if case["above"] else "below"
    name = "visibility_in_air"
    vc = c.layout_cube(lay, (1 - v if case["above"] else v).astype(np.float32),
                       "probability_of_%s_%s_threshold" % (name, rel), "1",
                       c.threshold_coord(pts, name, "m", rel))
    low = "cloud_base_height_assuming_only_consider_cloud_area_fraction_greater_than_4p5_oktas"
    sub = dict(lay, dims=[x for x in lay["dims"] if x != "main"])
    bc = c.layout_cube(sub, b.astype(np.float32), "probability_of_%s_below_threshold" % low, "1")
    x = c.threshold_coord([case["base"]], low, "m", "below")
    bc.add_aux_coord(x if x.__class__.__name__ == "AuxCoord" else AuxCoord(
        x.points, long_name=x.name(), var_name="threshold", units="m", attributes=x.attributes))
    if bad == "name":
        bc.rename("probability_of_rain_above_threshold")
    elif bad == "prob":
        bc.rename(low)
        bc.coord(low).var_name = None
    elif bad == "prob2":
        vc.rename(name)
        vc.coord(name).var_name = None
    cubes = [bc, vc] if case["swap"] else [vc, bc]
    if bad == "count":
        cubes = cubes + [bc.copy()]
    cubes = [CubeList(cubes[:1]), cubes[1:]] if case["nested"] else CubeList(cubes)
    plugin = VisibilityCombineCloudBase(case["initial"], case["first"])
    if bad:
        o.raises(ValueError, plugin, cubes)
        return True
    before = [o.snapshot(x) for x in (vc, bc)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = plugin(cubes)
    for x, y in zip(before, (vc, bc)):
        o.unchanged(x, y)
    f = case["first"]
    scale = np.where(pts >= f, 1.0, 1 - (1 - case["initial"]) * ((f - pts) / f) ** 4)
    want = np.maximum(v, b * scale.reshape([nt] + [1] * len(shape)))
    if case["above"]:
        want = 1 - want
    o.close(c.aligned(res, lay, name), want, "visibility", atol=2e-6)
    o.equal((res.name(), str(res.units), res.dtype), (vc.name(), "1", np.dtype("f4")), "result")
    x = res.coord(name)
    o.equal((x.points.tolist(), str(x.units), x.attributes),
            (vc.coord(name).points.tolist(), "m", dict(vc.coord(name).attributes)), "thresholds")
    o.equal(dict(res.attributes), post(c.ATTRS), "attributes")
    for y in vc.coords():
        if y.name() != name:
            o.same_coord(res.coord(y.name()), y)
    o.label(rel, lay["spot"] and "spot")
    return bool((want != v).any())


SUBS = {"simple": Sub(gen_simple, run_simple, 2), "freezing": Sub(gen_freezing, run_freezing, 2),
        "snow": Sub(gen_snow, run_snow, 2), "hailfrac": Sub(gen_hailfrac, run_hailfrac, 2),
        "visibility": Sub(gen_visibility, run_visibility, 2)}
