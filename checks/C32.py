"""C32: topographic bands, zone weights and land masks."""
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: orography on and between the edges and midpoints of contiguous bands, beyond them, "
        "in differing units, with and without a land mask, with interpolated land fractions; "
        "non-trivial when several bands hold points")
QUICK = 1200
THOROUGH = 40000


def gen_bands():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(1, 5))
        n = grid["ny"] * grid["nx"]
        steps = draw(g.lists(g.sampled([20, 50, 100, 150, 30]), min_size=1, max_size=5))
        lo = draw(g.sampled([-500, 0, 0, -20, 10]))
        edges = [lo]
        for s in steps:
            edges.append(edges[-1] + s)
        pts = edges + [(a + b) / 2 for a, b in zip(edges, edges[1:])] + [lo - 30, edges[-1] + 40]
        h = g.one_of(g.sampled(pts), g.integers(4 * (lo - 20), 4 * (edges[-1] + 20)).map(lambda x: x / 4),
                     g.integers(4 * lo, 4 * edges[-1]).map(lambda x: x / 4))
        return {"grid": grid, "edges": edges, "h": draw(g.fixed(n, h)),
                "land": draw(g.one_of(g.just(None), g.fixed(n, g.sampled([1, 1, 0])))),
                "ltype": draw(g.sampled(["i1", "f4", "bool"])),
                "hunits": draw(g.sampled(["m", "m", "km"])), "bunits": draw(g.sampled(["m", "m", "km"])),
                "scalar": draw(g.booleans()), "times": draw(g.times()),
                "bad": draw(g.sampled([None] * 12 + ["empty", "dims", "three"]))}

    return case()


def build(case):
    from vp import cubes as c

    grid = case["grid"]
    s = (grid["ny"], grid["nx"])
    h = np.array(case["h"], float).reshape(s)
    f = 1 if case["hunits"] == "m" else 1000.0
    extra = c.time_coords(case["times"]) if case["scalar"] else []
    orog = c.new_cube((h / f).astype(np.float32), "surface_altitude", case["hunits"], c.yx_coords(grid), extra)
    land = mask = None
    if case["land"] is not None:
        land = np.array(case["land"], bool).reshape(s)
        mask = c.new_cube(land.astype(case["ltype"]), "land_binary_mask", "1", c.yx_coords(grid))
    scale = 1 if case["bunits"] == "m" else 1000.0
    e = [x / scale for x in case["edges"]]
    spec = {"bounds": [list(x) for x in zip(e, e[1:])], "units": case["bunits"]}
    return orog, mask, land, h, spec, f


def run_masks(case):
    from improver.generate_ancillaries.generate_ancillary import GenerateOrographyBandAncils

    orog, mask, land, h, spec, f = build(case)
    e, bad = case["edges"], case["bad"]
    plugin = GenerateOrographyBandAncils()
    if bad == "empty":
        o.raises(ValueError, plugin, orog, {}, mask)
        return True
    if bad == "three":
        spec["bounds"][0] = spec["bounds"][0] + [1e4]
        o.raises(Exception, plugin, orog, spec, mask)
        return True
    if bad:
        o.reject("for the weights")
    before = [o.snapshot(x) for x in (orog, mask) if x is not None]
    res = plugin(orog, spec, mask)
    for x, y in zip(before, [x for x in (orog, mask) if x is not None]):
        o.unchanged(x, y)
    o.equal(len(res), len(e) - 1, "bands")
    exact = case["hunits"] == case["bunits"]
    total = 0
    for cube, lo, hi in zip(res, e, e[1:]):
        want = (h > lo) & (h <= hi)
        if land is not None:
            want &= land
        sure = np.ones(h.shape, bool) if exact else (np.abs(h - lo) > 1e-2) & (np.abs(h - hi) > 1e-2)
        got = np.asarray(cube.data)
        o.equal(got.shape, (1,) + h.shape, "shape")
        o.equal(np.where(sure, got[0], 0).astype(int), np.where(sure, want, 0).astype(int), "mask of the band")
        o.check(not np.ma.isMaskedArray(cube.data) or not np.ma.getmaskarray(cube.data).any(), "masked points")
        o.equal((cube.name(), str(cube.units), cube.dtype), ("topography_mask", "1", np.dtype("i4")), "result")
        zone = cube.coord("topographic_zone")
        o.equal(str(zone.units), case["hunits"], "units of the band")
        o.close(zone.bounds, [[lo / f, hi / f]], "bounds of the band", rtol=1e-5, atol=1e-6)
        o.close(zone.points, [(lo + hi) / 2 / f], "middle of the band", rtol=1e-5, atol=1e-6)
        o.equal(dict(cube.attributes), {"topographic_zones_include_seapoints": str(land is None)}, "attributes")
        for x in orog.coords():
            o.same_coord(cube.coord(x.name()), x)
        o.equal([x.name() for x in cube.coords(dim_coords=True)],
                ["topographic_zone"] + [x.name() for x in orog.coords(dim_coords=True)], "dimensions")
        total = total + got[0]
    if exact:
        inside = (h > e[0]) & (h <= e[-1]) & (True if land is None else land)
        o.equal(total, inside.astype(int), "bands partition the points")
    o.label("land" if land is not None else "all", "n%d" % len(res))
    return len(np.unique(h)) > 1 and len(res) > 1


def reference(h, e):
    """Weights of the bands at each point: linear between the middles of neighbouring bands."""
    mid = [(a + b) / 2 for a, b in zip(e, e[1:])]
    w = np.zeros((len(mid),) + h.shape)
    for i in np.ndindex(h.shape):
        z = h[i]
        k = [n for n in range(len(mid)) if e[n] < z <= e[n + 1]]
        if not k:
            continue
        k = k[0]
        half = (e[k + 1] - e[k]) / 2
        own = 1 - 0.5 * abs(z - mid[k]) / half
        if z > mid[k] and k < len(mid) - 1:
            w[(k,) + i], w[(k + 1,) + i] = own, 1 - own
        elif z < mid[k] and k > 0:
            w[(k,) + i], w[(k - 1,) + i] = own, 1 - own
        else:
            w[(k,) + i] = 1
    return w


def run_weights(case):
    from improver.generate_ancillaries.generate_topographic_zone_weights import GenerateTopographicZoneWeights
    from iris.util import new_axis
    from vp import cubes as c

    orog, mask, land, h, spec, f = build(case)
    e, bad = case["edges"], case["bad"]
    plugin = GenerateTopographicZoneWeights()
    if bad == "dims":
        orog.add_aux_coord(c.realization_coord([0]))
        o.raises(Exception, plugin, new_axis(orog, "realization"), spec, mask)
        return True
    if bad:
        o.reject("for the masks")
    before = [o.snapshot(x) for x in (orog, mask) if x is not None]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        res = plugin(orog, spec, mask)
    for x, y in zip(before, [x for x in (orog, mask) if x is not None]):
        o.unchanged(x, y)
    msgs = [str(w.message) for w in caught]
    exact = case["hunits"] == case["bunits"] == "m"
    for txt, test, edge in (("maximum orography is greater", h.max() > e[-1], abs(h.max() - e[-1])),
                            ("minimum orography is lower", h.min() < e[0], abs(h.min() - e[0]))):
        if exact or edge > 0.01:
            o.equal(any(txt in m for m in msgs), bool(test), "warning that the " + txt)
    want = reference(h, e)
    near = np.zeros(h.shape, bool)
    if not exact:
        near = (np.abs(h - e[0]) < 1e-2) | (np.abs(h - e[-1]) < 1e-2)
    data = res.data
    if data.ndim == 2:
        data = data[None]
    o.equal(data.shape, want.shape, "shape")
    m = np.ma.getmaskarray(data)
    o.equal(m, np.broadcast_to(np.zeros(h.shape, bool) if land is None else ~land, m.shape), "masked points")
    got = np.ma.filled(np.ma.asarray(data, float), 0).astype(float)
    show = ~m & ~near
    o.close(np.where(show, got, 0), np.where(show, want, 0), "weights of the zones", atol=2e-4)
    o.equal((res.name(), str(res.units), res.dtype), ("topographic_zone_weights", "1", np.dtype("f4")), "result")
    zone = res.coord("topographic_zone")
    o.equal(str(zone.units), case["hunits"], "units of the zones")
    o.close(zone.bounds, np.array([x for x in zip(e, e[1:])]) / f, "bounds of the zones", rtol=1e-5, atol=1e-6)
    o.close(zone.points, [(a + b) / 2 / f for a, b in zip(e, e[1:])], "middles of the zones", rtol=1e-5,
            atol=1e-6)
    o.equal(dict(res.attributes), {"topographic_zones_include_seapoints": str(land is None)}, "attributes")
    # (a single zone becomes a scalar coordinate)
    o.equal([x.name() for x in res.coords(dim_coords=True)],
            ["topographic_zone"] * (res.ndim == 3 or len(want) > 1) + [x.name() for x in orog.coords(dim_coords=True)], "dimensions")
    for x in orog.coords():
        o.same_coord(res.coord(x.name()), x)
    o.label("land" if land is not None else "all", "n%d" % len(want))
    return len(np.unique(h)) > 1 and len(want) > 1


def gen_landmask():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(1, 5))
        n = grid["ny"] * grid["nx"]
        return {"grid": grid, "v": draw(g.fixed(n, g.sampled([0, 0.1, 0.49, 0.5, 0.51, 0.9, 1, 0.4999]))),
                "type": draw(g.sampled(["f4", "f8"])), "name": draw(g.sampled(["land_area_fraction",
                                                                              "land_binary_mask"]))}

    return case()


def run_landmask(case):
    from improver.generate_ancillaries.generate_ancillary import CorrectLandSeaMask
    from vp import cubes as c

    grid = case["grid"]
    v = np.array(case["v"]).reshape(grid["ny"], grid["nx"])
    cube = c.new_cube(v.astype(case["type"]), case["name"], "1", c.yx_coords(grid))
    old = cube.copy()
    res = CorrectLandSeaMask()(cube)
    o.equal(np.asarray(res.data), (v >= 0.5).astype(np.int8), "land mask")
    o.equal((res.name(), res.dtype, str(res.units)), ("land_binary_mask", np.dtype("i1"), "1"), "result")
    for x in old.coords():
        o.same_coord(res.coord(x.name()), x)
    o.equal(dict(res.attributes), dict(old.attributes), "attributes")
    again = CorrectLandSeaMask()(res.copy())
    o.equal(np.asarray(again.data), np.asarray(res.data), "land mask corrected twice")
    return len(set(case["v"])) > 1


SUBS = {"masks": Sub(gen_bands, run_masks, 2), "weights": Sub(gen_bands, run_weights, 3),
        "landmask": Sub(gen_landmask, run_landmask, 1)}
