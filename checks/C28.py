"""C28: levels in the atmosphere where something happens: crossings, phase changes, hail."""
import warnings

import numpy as np

from checks.C27 import CP, MODEL, RD, condense, dims, integrate, latent, qsat
from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: columns on height or pressure levels with missing values, several realizations or "
        "times, dimension orders and units; wet-bulb profiles over land, sea and mountains; hail "
        "indices over the whole nomogram; non-trivial when some column crosses the level, some phase "
        "change lies within the profile, or hail falls")
QUICK = 3000
THOROUGH = 24000


# ---------------------------------------------------------------- level of a value
def gen_level():
    from vp import gens as g

    @g.composite
    def case(draw):
        nz = draw(g.integers(2, 6))
        lay = draw(g.layout(nz, leads=("none", "realization", "time"), spot=False, max_n=2, pos=False))
        n = g.size(lay["inner"])
        return {"lay": lay, "nz": nz, "kind": draw(g.sampled(["height", "pressure"])),
                "base": draw(g.fixed(n, g.integers(2600, 2950))),
                "drop": draw(g.fixed(n * nz, g.integers(1, 120))),
                "missing": draw(g.sampled([None, None, "mask", "nan", "inf"])),
                "bits": draw(g.fixed(n * nz, g.sampled([0, 0, 1]))),
                "lsd": draw(g.sampled([None, None, 0, 1])), "value": draw(g.integers(2500, 2960)),
                "zpos": draw(g.integers(0, 1)), "bad": draw(g.integers(0, 11)) == 0}

    return case()


def run_level(case):
    from improver.psychrometric_calculations.wet_bulb_temperature import MetaWetBulbFreezingLevel
    from improver.utilities.cube_extraction import ExtractLevel
    from iris.coords import DimCoord
    from vp import cubes as c

    lay, nz = case["lay"], case["nz"]
    shape = lay["inner"]
    full = [nz] + shape
    t = np.array(case["base"], float).reshape(shape) - np.cumsum(
        np.array(case["drop"], float).reshape(full), axis=0)
    t = np.round(t / 10 + 0.003, 3).astype(np.float32)
    bits = np.array(case["bits"], bool).reshape(full)
    if case["missing"] is None:
        bits[:] = False
    else:                                     # at least one value in each column
        bits[nz // 2] &= ~bits.all(axis=0)
    z = {"height": [5.0, 100, 500, 800, 1500, 4000],
         "pressure": [100000.0, 95000, 85000, 70000, 50000, 30000]}[case["kind"]][:nz]
    z = np.array(z, np.float32)
    attrs = dict(c.ATTRS)
    if case["lsd"] is not None:
        attrs["least_significant_digit"] = case["lsd"]
    zc = DimCoord(z, long_name=case["kind"], units="m" if case["kind"] == "height" else "Pa",
                  attributes={"positive": "up" if case["kind"] == "height" else "down"})
    sub = dict(lay)
    if lay["k"] and case["zpos"]:
        sub["dims"] = [lay["lead"], "main"] + lay["dims"][2:]

    def build():
        data = t.copy()
        if case["missing"] == "mask":
            data[bits] = 9999
            data = np.ma.MaskedArray(data, mask=bits.copy())
        elif case["missing"]:
            data[bits] = np.nan if case["missing"] == "nan" else np.inf
        return c.layout_cube(sub, data, "air_temperature", "K", zc.copy(), attrs)

    cube = build()
    value = case["value"] / 10
    if case["bad"]:
        cube.add_aux_coord(DimCoord(np.float32(1), long_name={
            "height": "pressure", "pressure": "height"}[case["kind"]], units="1"))
        o.raises(NotImplementedError, ExtractLevel(False, value), cube)
        return True
    # profiles filled with values continuing the next one upwards, then downwards
    step = 10.0 ** -(2 if case["lsd"] is None else case["lsd"])
    f, gone = t.astype(float).copy(), bits.copy()
    for k in range(nz - 2, -1, -1):
        use = gone[k] & ~gone[k + 1]
        f[k] = np.where(use, f[k + 1] + step, f[k])
        gone[k] &= ~use
    for k in range(1, nz):
        f[k] = np.where(gone[k], f[k - 1] - step, f[k])
    want = np.empty(shape)
    sure = np.ones(shape, bool)
    for i in np.ndindex(*shape):
        col = f[(slice(None),) + i]
        if value >= col[0]:
            want[i] = z[0]
        elif value <= col[-1]:
            want[i] = z[-1]
        else:
            k = int(np.argmax(col <= value))
            w = (col[k - 1] - value) / (col[k - 1] - col[k])
            want[i] = z[k - 1] + w * (z[k].astype(float) - z[k - 1])
        sure[i] = (np.diff(col) < -0.05).all() if case["missing"] else True

    def compare(res, name):
        got = c.aligned(res, lay)
        o.equal(np.ma.getmaskarray(got).any(), np.bool_(False), "masked points")
        got = np.ma.getdata(got)
        # a filled step is steep: within it any level of the step will do
        slack = np.abs(got - want) <= 1e-4 * abs(float(z[-1]) - float(z[0])) + 0.5
        o.check(slack[sure].all(), "level: got %s, expected %s" % (got.tolist(), want.tolist()))
        o.within(got, z.min(), z.max(), "level", 1e-2)
        o.equal((res.name(), str(res.units)), (name, str(zc.units)), "result")
        o.equal(dims(res), [d for d in dims(cube) if d != case["kind"]], "dimensions")
        o.equal(res.coords(case["kind"]), [], "levels")
        o.equal(dict(res.attributes), attrs, "attributes")
        for x in cube.coords():
            if x.name() != case["kind"]:
                o.same_coord(res.coord(x.name()), x)

    # the variable falls along the axis in both cases
    res = ExtractLevel(case["kind"] == "pressure", value)(cube)
    if case["kind"] == "pressure":
        compare(res, "pressure_of_atmosphere_at_%sK" % value)
    else:
        compare(res, "height_at_%sK" % value)
        if abs(value - 273.15) < 15:
            shift = np.float32(273.15 - value)
            t = (t + shift).astype(np.float32)
            compare(MetaWetBulbFreezingLevel()(build()), "wet_bulb_freezing_level_altitude")
    o.label(case["missing"], case["kind"], lay["lead"])
    return bool(((want != z[0]) & (want != z[-1])).any())


# ---------------------------------------------------------------- phase change level
def gen_phase():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(1, leads=("none", "realization", "time"), spot=False, max_n=4, pos=False))
        m = lay["grid"]["ny"] * lay["grid"]["nx"]
        n = g.size(lay["inner"])
        return {"lay": lay, "base": draw(g.fixed(n, g.integers(-60, 160))),
                "lapse": draw(g.fixed(n, g.integers(30, 90))),
                "noise": draw(g.fixed(n * 7, g.integers(-5, 5))),
                "orog": draw(g.fixed(m, g.sampled([0, 0, 0, 30, 200, 900, -5]))),
                "land": draw(g.fixed(m, g.integers(0, 1))),
                "phase": draw(g.sampled(["snow-sleet", "sleet-rain", "hail-rain"])),
                "nz": draw(g.integers(3, 7)), "bounds": draw(g.booleans()), "desc": draw(g.booleans()),
                "radius": draw(g.sampled([0, 1, 2])), "horizontal": draw(g.booleans()),
                "model": draw(g.booleans()), "kelvin": draw(g.booleans()),
                "odims": draw(g.booleans()), "order": draw(g.permutation(4)),
                "bad": draw(g.sampled([None] * 12 + ["count", "phase", "model"]))}

    return case()


THRESHOLD = {"snow-sleet": (90.0, "snow_falling"), "sleet-rain": (202.5, "rain_falling"),
             "hail-rain": (5000.0, "rain_from_hail_falling")}


def run_phase(case):
    from improver.psychrometric_calculations.psychrometric_calculations import PhaseChangeLevel
    from iris.coords import DimCoord
    from vp import cubes as c

    lay, nz, phase = case["lay"], case["nz"], case["phase"]
    shape = lay["inner"]
    ny, nx = shape[-2:]
    scale = 8.0 if phase == "hail-rain" else 1.0
    h = np.array([5.0, 20, 75, 150, 300, 600, 1200][:nz]) * scale
    orog = np.array(case["orog"], float).reshape(ny, nx)
    land = np.array(case["land"]).reshape(ny, nx)
    base = np.array(case["base"], float).reshape(shape) / 10
    lapse = np.array(case["lapse"], float).reshape(shape) / 10000
    noise = np.array(case["noise"], float).reshape([7] + shape)[:nz] / 10
    hh = h.reshape([nz] + [1] * len(shape))
    wbt = (base - lapse * hh + noise * 0.3).astype(np.float32).astype(float)
    levels = integrate(h, wbt, False, None, None)           # from the top downwards
    zi = np.array([a for a, _, _ in levels])
    zb = np.array([b for _, b, _ in levels])
    wbi = np.array([f for _, _, f in levels]).astype(np.float32).astype(float)
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    flip = slice(None) if case["desc"] else slice(None, None, -1)

    def level(pts, bounds=None):
        return DimCoord(np.array(pts, np.float32), standard_name="height", units="m", bounds=bounds,
                        attributes={"positive": "up"})

    tc = c.layout_cube(lay, (wbt + (273.15 if case["kelvin"] else 0)).astype(np.float32),
                       "wet_bulb_temperature", "K" if case["kelvin"] else "celsius", level(h), attrs)
    ic = c.layout_cube(lay, wbi[flip].astype(np.float32), "wet_bulb_temperature_integral", "K m",
                       level(zi[flip], zb[flip].astype(np.float32) if case["bounds"] else None),
                       dict(attrs, **({MODEL: "other"} if case["bad"] == "model" else {})))
    yx = c.yx_coords(lay["grid"])

    def static(data, name, units):
        data = data.astype(np.float32)
        cube = c.new_cube(data, name, units, yx)
        if case["odims"]:
            cube.transpose()
        return cube

    oc, lc = static(orog, "surface_altitude", "m"), static(land, "land_binary_mask", "1")
    kw = {"grid_point_radius": case["radius"], "horizontal_interpolation": case["horizontal"]}
    if case["model"] or case["bad"] == "model":
        kw["model_id_attr"] = MODEL
    if case["bad"] == "phase":
        o.raises(ValueError, PhaseChangeLevel, "rain-snow", **kw)
        return True
    plugin = PhaseChangeLevel(phase, **kw)
    cubes = [tc, ic, oc, lc]
    cubes = [cubes[i] for i in case["order"]]
    if case["bad"]:
        o.raises(ValueError, plugin, *(cubes[:3] if case["bad"] == "count" else cubes))
        return True
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        res = plugin(*cubes)
    thr, name = THRESHOLD[phase]
    o.equal((res.name(), str(res.units), res.dtype),
            ("altitude_of_%s_level" % name, "m", np.dtype("f4")), "result")
    o.equal(dict(res.attributes), attrs if case["model"] else c.ATTRS, "attributes")
    o.equal(dims(res), [d for d in dims(tc) if d != "height"], "dimensions")
    for x in tc.coords():
        if x.name() != "height":
            o.same_coord(res.coord(x.name()), x)
    got = c.aligned(res, lay)
    gm, got = np.ma.getmaskarray(got), np.ma.getdata(got).astype(float)
    top = h[-1]
    found = 0
    whole = got.reshape([-1, ny, nx])
    masks = gm.reshape([-1, ny, nx])
    ints = wbi.reshape([len(zi), -1, ny, nx])
    temps = wbt.reshape([nz, -1, ny, nx])
    for k in range(whole.shape[0]):
        known = np.zeros((ny, nx), bool)
        unsure = np.zeros((ny, nx), bool)
        for i in np.ndindex(ny, nx):
            col, v, at = ints[(slice(None), k) + i], whole[k][i], orog[i]
            if (np.abs(col - thr) < 1e-3 * thr).any():
                unsure[i] = True
                continue
            if col[0] > thr:                  # melted everywhere
                want = top + at
            elif col[-1] > thr:
                j = int(np.argmax(col > thr))
                w = (thr - col[j - 1]) / (col[j] - col[j - 1])
                want = zi[j - 1] + w * (zi[j] - zi[j - 1]) + at
                found += 1
            elif land[i]:
                continue
            else:
                x, y = h[:5], temps[(slice(0, 5), k) + i]
                m = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
                b = y.mean() - m * x.mean()
                if abs(m) < 1e-6 or (abs(b) < 1e-3):
                    unsure[i] = True
                    continue
                if m >= 0:
                    continue
                start = min(0.0, -b / m)      # going down from where it is positive
                need = thr - col[-1]
                low = v - at

                def area(z):
                    return m / 2 * (start ** 2 - z ** 2) + b * (start - z)

                known[i] = True
                o.check(not masks[k][i], "sea point without a level")
                if low <= -2000 + 1e-2:
                    o.close(low, -2000.0, "lowest level", atol=1e-2)
                    o.check(start <= -2000 or area(-2000.0) <= need + 1e-2 * need + 1, "level cut off too early")
                else:
                    o.check(low <= start + 1e-3, "level above the start")
                    o.close(area(low), need, "wet-bulb integral below sea level", rtol=2e-3,
                            atol=0.2 + 2e-4 * abs(area(low - 1) - area(low)) * 10)
                continue
            known[i] = True
            o.check(not masks[k][i], "no level at %s" % (i,))
            o.close(v, want, "level at %s" % (i,), atol=0.05, rtol=1e-5)
        rest = ~known & ~unsure
        if unsure.any():
            continue
        if not case["horizontal"] or not known.any():
            o.check(masks[k][rest].all(), "levels made up below ground")
        elif rest.any():
            o.check(not masks[k].any(), "holes remain")
            v = whole[k][rest]
            o.check((v <= orog[rest] + 0.01).all(), "filled above the ground")
            low = whole[k][known].min()
            o.check((v >= np.minimum(low, orog[rest]) - 0.05).all(), "filled below all levels")
            o.check((v <= whole[k][known].max() + 0.05).all(), "filled above all levels")
    o.label(phase, "land" if gm.any() else None, lay["lead"])
    return found > 0


# ---------------------------------------------------------------- hail
def gen_hail():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(4, leads=("none", "realization"), spot=False, max_n=2))
        n = g.size(lay["inner"])
        return {"lay": lay, "tb": draw(g.fixed(n, g.integers(2660, 3050))),
                "pb": draw(g.fixed(n, g.integers(700, 1000))),
                "base": draw(g.fixed(n, g.integers(2670, 3000))),
                "drop": draw(g.fixed(n * 4, g.integers(20, 250))),
                "wbz": draw(g.fixed(n, g.one_of(g.integers(0, 5000), g.sampled(
                    [3299, 3301, 3320, 3349, 3351, 3549, 3751, 4151, 4399, 4401])))),
                "orog": draw(g.fixed(n, g.sampled([0, 0, 100, 800]))), "model": draw(g.booleans()),
                "tu": draw(g.sampled(["K", "celsius"])), "pu": draw(g.sampled(["Pa", "hPa"])),
                "zu": draw(g.sampled(["m", "km"])), "order": draw(g.permutation(5)),
                # where in the table: row and column for each point
                "aim": draw(g.one_of(g.just(None), g.fixed(n, g.fixed(2, g.integers(0, 27))))),
                "bad": draw(g.integers(0, 12)) == 0}

    return case()


TABLE = [[0, 0, 0, 2, 2, 5, 5, 5, 5, 5], [0, 0, 0, 2, 5, 5, 5, 5, 10, 10],
         [0, 0, 2, 2, 5, 5, 10, 10, 15, 15], [0, 0, 2, 2, 5, 10, 15, 15, 20, 20],
         [0, 0, 2, 2, 10, 15, 20, 20, 20, 20], [0, 2, 2, 5, 15, 20, 20, 20, 25, 25],
         [0, 2, 5, 10, 20, 20, 25, 25, 30, 30], [2, 2, 10, 15, 20, 25, 30, 30, 35, 35],
         [2, 5, 10, 20, 25, 30, 35, 35, 40, 40], [2, 5, 15, 20, 30, 35, 40, 40, 45, 45],
         [2, 5, 15, 20, 30, 40, 40, 40, 45, 50], [2, 10, 20, 25, 35, 40, 45, 45, 50, 50],
         [5, 10, 20, 25, 40, 40, 45, 50, 55, 55], [5, 15, 20, 30, 40, 45, 50, 55, 60, 60],
         [5, 15, 25, 30, 40, 45, 55, 60, 60, 65], [5, 15, 25, 35, 40, 50, 55, 60, 65, 75],
         [10, 15, 25, 35, 45, 50, 60, 65, 70, 80], [10, 15, 25, 40, 45, 55, 60, 70, 80, 85],
         [10, 15, 30, 40, 45, 55, 65, 75, 85, 90], [10, 20, 30, 40, 50, 60, 70, 80, 90, 100],
         [10, 20, 30, 40, 50, 60, 70, 80, 95, 105], [10, 20, 35, 45, 50, 60, 75, 85, 100, 110],
         [10, 20, 35, 45, 50, 60, 75, 90, 105, 115], [15, 25, 35, 45, 50, 65, 80, 100, 110, 120],
         [15, 25, 35, 45, 55, 65, 80, 100, 110, 120], [15, 25, 35, 50, 55, 65, 80, 100, 110, 120]]
REDUCED = {3350: [0, 5, 10, 15, 25, 50, 65, 75], 3550: [0, 0, 5, 10, 20, 20, 25, 30],
           3750: [0, 0, 0, 5, 10, 15, 15, 15], 3950: [0, 0, 0, 0, 5, 10, 10, 10],
           4150: [0, 0, 0, 0, 0, 0, 5, 5], 4400: [0] * 8}
GROUPS = [5, 10, 20, 25, 50, 75, 100, 125]


def hail(vertical, horizontal, tb, wbz):
    row, col = int(np.round(vertical * 2)), int(np.round(horizontal / 5)) - 1
    if tb < 268.15 or row < 0 or col < 0:
        return 0
    size = TABLE[min(row, 25)][min(col, 9)]
    if wbz < 3350:
        return size
    key = max(x for x in REDUCED if x <= wbz)
    return REDUCED[key][[size < x for x in GROUPS].index(True)]


def run_hail(case):
    from improver.psychrometric_calculations.hail_size import HailSize
    from iris.coords import DimCoord
    from vp import cubes as c

    lay = case["lay"]
    shape = lay["inner"]
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    tb = (np.array(case["tb"], float) / 10).reshape(shape).astype(np.float32).astype(float)
    pb = np.array(case["pb"], float).reshape(shape) * 100
    t = np.array(case["base"], float).reshape(shape) / 10 - np.cumsum(
        np.array(case["drop"], float).reshape([4] + shape), axis=0) / 10 + 0.013
    z = np.array([95000.0, 80000, 60000, 40000])
    if case["aim"]:
        # a cloud base and a profile through -5 C that give that row and column
        pb = np.maximum(pb, 80000.0)
        row, col = np.array(case["aim"], float).reshape(shape + [2]).T
        row, col = row.T, col.T
        p = np.minimum(pb / (1 + (5 * (col % 11) + 5) / 268.15) ** (CP / RD), 94000.0)
        t = 268.15 + (z.reshape([4] + [1] * p.ndim) - p) * 6e-4
        low, high = np.full(shape, 262.0), np.full(shape, 330.0)
        for _ in range(11):
            x = (low + high) / 2
            dry, b = x * (p / pb) ** (RD / CP), 268.15 + row / 2
            up = dry + latent(dry) / CP * (qsat(x, pb) - qsat(b, p)) < b
            low, high = np.where(up, x, low), np.where(up, high, x)
        tb = low.astype(np.float32).astype(float)
    ny, nx = lay["grid"]["ny"], lay["grid"]["nx"]
    orog = np.array(case["orog"][:ny * nx], float).reshape(ny, nx)
    wbz = np.array(case["wbz"], float).reshape(shape) + 0.4
    shift = 273.15 if case["tu"] != "K" else 0
    zc = DimCoord(z.astype(np.float32), long_name="pressure", units="Pa",
                  attributes={"positive": "down"})

    def make(vals, name, units, **kw):
        return c.layout_cube(lay, vals.astype(np.float32), name, units, attributes=attrs, **kw)

    ec = make(t - shift, "air_temperature", case["tu"], main=zc)
    tc = make(tb - shift, "air_temperature_at_condensation_level", case["tu"])
    pc = make(pb / (100 if case["pu"] == "hPa" else 1), "air_pressure_at_condensation_level",
              case["pu"])
    zu = 1000 if case["zu"] == "km" else 1
    wc = make((wbz + orog) / zu, "wet_bulb_freezing_level_altitude", case["zu"])
    grid = dict(lay["grid"], y0=lay["grid"]["y0"] + 1) if case["bad"] else lay["grid"]
    oc = c.new_cube((orog / zu).astype(np.float32), "surface_altitude", case["zu"], c.yx_coords(grid))
    cubes = [[ec, tc, pc, wc, oc][i] for i in case["order"]]
    plugin = HailSize(**({"model_id_attr": MODEL} if case["model"] else {}))
    if case["bad"]:
        o.raises(ValueError, plugin, *cubes)
        return True
    order = dims(wc)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = plugin(*cubes)
    p268 = np.empty(shape)
    for i in np.ndindex(*shape):
        col = t[(slice(None),) + i]
        p268[i] = np.interp(-268.15, -col, z)
    dry = tb * (p268 / pb) ** (RD / CP)
    b = condense(dry, qsat(tb, pb), p268)[0]
    vertical = b - 268.15
    horizontal = 268.15 * (pb / p268) ** (RD / CP) - 268.15
    got = c.aligned(res, lay) * 1000
    some = False
    for i in np.ndindex(*shape):
        v, u = vertical[i], horizontal[i]
        near = {hail(v + dv, u + du, tb[i], wbz[i] + dw)
                for dv in (-0.04, 0, 0.04) for du in (-0.04, 0, 0.04) for dw in (-0.3, 0, 0.3)}
        o.check(min(abs(got[i] - x) for x in near) < 1e-3,
                "hail size %s, expected %s at %s" % (got[i], sorted(near), i))
        some |= bool(max(near))
    o.equal((res.name(), str(res.units), res.dtype),
            ("diameter_of_hail_stones", "m", np.dtype("f4")), "result")
    o.equal(dims(res), order, "dimensions")
    o.equal(dict(res.attributes), attrs if case["model"] else c.ATTRS, "attributes")
    for x in tc.coords():
        o.same_coord(res.coord(x.name()), x)
    return some


# ---------------------------------------------------------------- phases at the surface
def gen_surface():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0))
        n = g.size(lay["inner"])
        return {"lay": lay, "level": draw(g.fixed(n, g.sampled([0, 50, 100, 300, 301, 5000, -100]))),
                "alt": draw(g.fixed(n, g.sampled([0, 50, 100, 300, 1000]))),
                "kind": draw(g.sampled(["snow", "rain", "rain_from_hail"])),
                "units": draw(g.sampled(["m", "m", "km", "feet"])),
                "pct": draw(g.sampled([None, None, [20, 50, 80], [50], [20], [80]])),
                "ppos": draw(g.booleans()), "swap": draw(g.booleans()),
                "frac": draw(g.fixed(n, g.sampled([0, 0.005, 0.0099, 0.0101, 0.5, 0.9899, 0.9901, 1]))),
                "bad": draw(g.sampled([None] * 8 + ["count", "grid", "name", "orog", "range", "mask",
                                                    "units", "fname", "phase"])),
                "model": draw(g.booleans())}

    return case()


def run_surface(case):
    from improver.psychrometric_calculations.precip_phase_probability import PrecipPhaseProbability
    from improver.psychrometric_calculations.significant_phase_mask import SignificantPhaseMask
    from vp import cubes as c

    lay, bad, kind = case["lay"], case["bad"], case["kind"]
    shape = lay["inner"]
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    # significant phases
    frac = np.array(case["frac"], float).reshape(shape)
    data = frac.copy()
    if bad == "range":
        data.flat[0] = 1.1
    data = data.astype(np.float32)
    if bad == "mask":
        data = np.ma.masked_array(data, np.ones(shape, bool))
    fc = c.layout_cube(lay, data, "rain_fraction" if bad == "fname" else "snow_fraction",
                       "%" if bad == "units" else "1", attributes=attrs)
    plugin = SignificantPhaseMask(**({"model_id_attr": MODEL} if case["model"] else {}))
    if bad in ("range", "units", "fname"):
        o.raises(ValueError, plugin, fc, "rain")
        return True
    if bad == "mask":
        o.raises(NotImplementedError, plugin, fc, "rain")
        return True
    if bad == "phase":
        o.raises(KeyError, plugin, fc, "hail")
        return True
    before = o.snapshot(fc)
    total = 0
    for phase, want in (("rain", frac < 0.01), ("sleet", (frac > 0.01) & (frac < 0.99)),
                        ("snow", frac > 0.99)):
        res = plugin(fc, phase)
        o.equal(c.aligned(res, lay).tolist(), want.astype(int).tolist(), phase)
        o.equal((res.name(), str(res.units), res.dtype), (phase + "_mask", "1", np.dtype("i1")),
                "result")
        o.equal(dict(res.attributes), attrs if case["model"] else c.ATTRS, "attributes")
        o.equal(dims(res), dims(fc), "dimensions")
        total = total + c.aligned(res, lay)
    o.equal(np.unique(total).tolist(), [1], "sum of the masks")
    o.unchanged(before, fc)
    # phases at the surface
    if lay["dims"][-2:] not in (["y", "x"],) and lay["dims"][-1] != "site":
        return True
    level = np.array(case["level"], float).reshape(shape)
    per = {"m": 1.0, "km": 1000.0, "feet": 0.3048}[case["units"]]
    pct, need = case["pct"], 80 if kind == "snow" else 20
    name = "altitude_of_%s_falling_level" % ("cloud" if bad == "name" else kind)
    space = lay["inner"][-1:] if lay["spot"] else lay["inner"][-2:]
    alts = np.array(case["alt"], float)[:int(np.prod(space))].reshape(space)
    site = {"alts": np.array(alts, np.float32)} if lay["spot"] else {}
    lev = level / per
    if case["units"] == "feet":               # never equal to the altitude
        lev = lev + 0.5
        level = lev * per
    if case["units"] == "km":
        lev = lev + 0.0005
        level = lev * per
    if pct:
        lev = np.stack([lev + (p - need) * 7 for p in pct])
        sub = dict(lay, dims=["main"] + lay["dims"])
        if case["ppos"] and lay["k"]:
            sub["dims"] = [lay["dims"][0], "main"] + lay["dims"][1:]
        cube = c.layout_cube(sub, lev.astype(np.float32), name, case["units"],
                             c.percentile_coord(pct), attrs, **site)
    else:
        cube = c.layout_cube(lay, lev.astype(np.float32), name, case["units"], attributes=attrs,
                             **site)
    if lay["spot"]:
        oc = c.spot_cube(np.zeros((1, len(alts)), np.float32),
                         "other" if bad == "orog" else "grid_neighbours", "1", len(alts),
                         lead=[None], alts=alts)
        if bad == "grid":
            o.reject("grids only")
    else:
        grid = dict(lay["grid"], y0=lay["grid"]["y0"] + 1) if bad == "grid" else lay["grid"]
        oc = c.new_cube(alts.astype(np.float32), "other" if bad == "orog" else "surface_altitude",
                        "m", c.yx_coords(grid))
    cubes = [oc, cube] if case["swap"] else [cube, oc]
    plugin = PrecipPhaseProbability()
    if bad or (pct and need not in pct):
        o.raises(ValueError, plugin, *(cubes[:1] if bad == "count" else cubes))
        return True
    before = [o.snapshot(x) for x in cubes]
    res = plugin(*cubes)
    for b, x in zip(before, cubes):
        o.unchanged(b, x)
    want = (alts >= level) if kind == "snow" else (alts < level)
    o.equal(c.aligned(res, lay).tolist(), want.astype(int).tolist(), "probability")
    o.equal((res.name(), str(res.units), res.dtype),
            ("probability_of_%s_at_surface" % kind, "1", np.dtype("i1")), "result")
    o.equal(dict(res.attributes), c.ATTRS, "attributes")
    o.equal(dims(res), [d for d in dims(cube) if d != "percentile"], "dimensions")
    o.equal(res.coords("percentile"), [], "percentile")
    for x in cube.coords():
        if x.name() != "percentile":
            o.same_coord(res.coord(x.name()), x)
    return len(np.unique(want)) > 1


SUBS = {"level": Sub(gen_level, run_level, 2), "phase": Sub(gen_phase, run_phase, 2),
        "hail": Sub(gen_hail, run_hail, 1), "surface": Sub(gen_surface, run_surface, 2)}
