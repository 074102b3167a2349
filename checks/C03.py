"""C03: probabilities between thresholds, inverted probabilities, expected values."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: above/below-threshold probability cubes (monotonic, realization/time/threshold "
        "dimensions in any order, descending or ascending order of requests, unit "
        "conversion); non-trivial when the expected output is not constant")
QUICK = 5000
THOROUGH = 60000
SPP = {"gt": "greater_than", "ge": "greater_than_or_equal_to", "lt": "less_than",
       "le": "less_than_or_equal_to"}
INV = {"gt": "le", "ge": "lt", "lt": "ge", "le": "gt"}


def prob_case(draw, g, min_t=2, max_t=5):
    nt = draw(g.integers(min_t, max_t))
    grid = draw(g.xy_grid(1, 3))
    nr = draw(g.sampled([0, 0, 1, 2]))
    npts = max(nr, 1) * grid["ny"] * grid["nx"]
    cols = [sorted(draw(g.fixed(nt, g.grid_ints(0, 1, 0.0625)))) for _ in range(npts)]
    thr = sorted(draw(g.lists(g.grid_ints(-8, 8, 0.5), min_size=nt, max_size=nt,
                              unique=True)))
    return {"grid": grid, "nr": nr, "thr": thr, "cols": cols,
            "op": draw(g.sampled(sorted(SPP))), "pos": draw(g.integers(0, 3)),
            "times": draw(g.times()),
            "name": draw(g.sampled(["air_temperature", "rainfall_rate", "cloud_base"])),
            "vic": draw(g.integers(0, 5)) == 0}


UNITS = {"air_temperature": "K", "rainfall_rate": "m s-1", "cloud_base": "m"}
BASE = {"air_temperature": 280.0, "rainfall_rate": 10.0, "cloud_base": 0.0}


def build(case):
    """Cube and P(X below threshold), shape (thr, [r], y, x)."""
    from vp import cubes as c

    grid, nr, thr = case["grid"], case["nr"], case["thr"]
    below = np.array(case["cols"], dtype=np.float64).T.reshape(
        [len(thr)] + ([nr] if nr else []) + [grid["ny"], grid["nx"]])
    data = below if case["op"][0] == "l" else 1.0 - below
    pts = [t + BASE[case["name"]] for t in thr]
    name = "probability_of_%s%s_%s_threshold" % (
        case["name"], "_in_vicinity" if case["vic"] else "",
        "below" if case["op"][0] == "l" else "above")
    lead = [c.threshold_coord(pts, case["name"], UNITS[case["name"]], SPP[case["op"]])]
    if nr:
        lead.append(c.realization_coord(range(nr)))
    dims = lead + c.yx_coords(grid)
    pos = case["pos"] % data.ndim
    data = np.moveaxis(data, 0, pos)
    dims.insert(pos, dims.pop(0))
    cube = c.new_cube(np.ascontiguousarray(data).astype(np.float32), name, "1", dims,
                      c.time_coords(case["times"]))
    return cube, below, pts, pos


def gen_between():
    from vp import gens as g

    @g.composite
    def case(draw):
        cs = prob_case(draw, g)
        n = len(cs["thr"])
        pairs = []
        uppers = set()
        for _ in range(draw(g.integers(1, 4))):
            i = draw(g.integers(0, n - 2))
            j = draw(g.integers(i + 1, n - 1))
            if j not in uppers:
                uppers.add(j)
                pairs.append([i, j])
        cs["pairs"] = pairs
        cs["units"] = draw(g.booleans())
        cs["missing"] = draw(g.integers(0, 8)) == 0
        return cs

    return case()


CONV = {"air_temperature": ("celsius", 1.0, -273.15), "rainfall_rate": ("mm s-1", 1000.0, 0.0),
        "cloud_base": ("km", 0.001, 0.0)}


def run_between(case):
    from improver.between_thresholds import OccurrenceBetweenThresholds

    cube, below, pts, pos = build(case)
    name = case["name"]
    conv, a, b = CONV[name] if case["units"] else (UNITS[name], 1.0, 0.0)
    ranges = [[pts[i] * a + b, pts[j] * a + b] for i, j in case["pairs"]]
    if case["missing"]:
        lower = case["pos"] % 2
        extra = [(pts[0] - 100.0) * a + b, pts[-1] * a + b] if lower else [pts[0] * a + b, (pts[-1] + 100.0) * a + b]
        o.raises(ValueError, OccurrenceBetweenThresholds(ranges + [extra], conv), cube)
        o.raises(ValueError, OccurrenceBetweenThresholds, ranges + [[1.0, 1.0 + 2e-6]], conv)
        o.raises(ValueError, OccurrenceBetweenThresholds, [[1.0, 1.0 + 2e-6]], conv)
        between = OccurrenceBetweenThresholds([list(r) for r in ranges], conv)(cube)
        o.raises(ValueError, OccurrenceBetweenThresholds(ranges, conv), between)
        plain = cube.copy()
        plain.coord(var_name="threshold").var_name = None
        o.raises(ValueError, OccurrenceBetweenThresholds(ranges, conv), plain)
        return False
    before = o.snapshot(cube)
    result = OccurrenceBetweenThresholds([list(r) for r in ranges], conv)(cube)
    o.unchanged(before, cube)
    coord = result.coord(var_name="threshold")
    o.equal(str(coord.units), UNITS[name], "threshold units")
    o.equal(coord.attributes["spp__relative_to_threshold"], "between_thresholds", "spp")
    o.equal(result.name(), "probability_of_%s%s_between_thresholds" % (
        name, "_in_vicinity" if case["vic"] else ""), "name")
    dims = result.coord_dims(coord)
    left = {j: i for i, j in case["pairs"]}
    o.equal(coord.points.size, len(left), "number of ranges")
    for k in range(coord.points.size):
        lo, hi = sorted(coord.bounds[k])
        j = int(np.argmin([abs(p - hi) for p in pts]))
        o.check(j in left, "unexpected range %s", coord.bounds[k])
        i = left.pop(j)
        o.close([lo, hi], [pts[i], pts[j]], "range bounds", rtol=2e-6, atol=2e-6)
        o.close(coord.points[k], pts[j], "range point", rtol=2e-6, atol=2e-6)
        got = result.data[k] if dims else result.data
        if dims:
            got = np.take(result.data, k, axis=dims[0])
        want = below[j] - below[i]
        o.close(got, want, "P(between %s and %s)" % (pts[i], pts[j]), atol=1e-6)
    return bool((below[-1] != below[0]).any())


def gen_invert():
    from vp import gens as g

    @g.composite
    def case(draw):
        cs = prob_case(draw, g, 1)
        cs["above"] = draw(g.booleans())
        return cs

    return case()


def run_invert(case):
    from improver.utilities.probability_manipulation import (
        invert_probabilities, to_threshold_inequality)

    cube, _, _, _ = build(case)
    before = o.snapshot(cube)
    inv = invert_probabilities(cube)
    o.unchanged(before, cube)
    name = cube.name()
    flipped = name.replace("above", "below") if "above" in name else name.replace(
        "below", "above")
    o.equal(inv.name(), flipped, "name")
    o.close(inv.data, 1.0 - cube.data.astype(np.float64), "inverted probabilities")
    co = inv.coord(var_name="threshold")
    o.equal(co.attributes["spp__relative_to_threshold"], SPP[INV[case["op"]]], "spp")
    o.equal(co.points.tolist(), cube.coord(var_name="threshold").points.tolist(), "points")
    back = invert_probabilities(inv)
    o.close(back.data, cube.data, "double inversion")
    o.equal(back.name(), name, "name after double inversion")
    o.equal(back.coord(var_name="threshold").attributes["spp__relative_to_threshold"],
            SPP[case["op"]], "spp after double inversion")
    out = to_threshold_inequality(cube, above=case["above"])
    is_above = case["op"][0] == "g"
    want = cube if is_above == case["above"] else inv
    o.close(out.data, want.data, "to_threshold_inequality")
    o.equal(out.name(), want.name(), "name")
    o.equal(out.coord(var_name="threshold").attributes["spp__relative_to_threshold"],
            want.coord(var_name="threshold").attributes["spp__relative_to_threshold"],
            "spp")
    return bool(cube.data.min() != cube.data.max())


def gen_ev():
    from vp import gens as g

    @g.composite
    def case(draw):
        cs = prob_case(draw, g, 2, 6)
        cs["bad"] = draw(g.integers(0, 8)) == 0
        cs["badpos"] = draw(g.integers(0, 100))
        return cs

    return case()


def run_ev(case):
    from improver.expected_value import ExpectedValue

    cube, below, pts, pos = build(case)
    if case["bad"]:
        k = case["badpos"] % len(case["cols"])
        col = np.moveaxis(cube.data, pos, 0)
        flat = col.reshape(len(pts), -1)
        if flat[0, k] == flat[-1, k]:
            o.reject("constant column")
        view = np.array(flat)
        view[:, k] = flat[::-1, k].copy()
        cube.data = np.ascontiguousarray(np.moveaxis(view.reshape(col.shape), 0, pos))
        o.raises(ValueError, ExpectedValue(), cube)
        o.label("non-monotonic rejected")
        return True
    before = o.snapshot(cube)
    result = ExpectedValue()(cube)
    o.unchanged(before, cube)
    full = np.concatenate([np.zeros((1,) + below.shape[1:]), below,
                           np.ones((1,) + below.shape[1:])])
    mid = np.array([pts[0]] + [(x + y) / 2 for x, y in zip(pts, pts[1:])] + [pts[-1]])
    want = np.tensordot(mid, np.diff(full, axis=0), axes=(0, 0))
    o.close(result.data, want, "expected value", rtol=2e-6, atol=2e-5)
    o.equal(result.name(), case["name"], "name")
    o.equal(str(result.units), UNITS[case["name"]], "units")
    o.equal(str(result.dtype), "float32", "dtype")
    o.check(not result.coords(var_name="threshold"), "threshold coordinate kept")
    o.equal([c.name() for c in result.coords(dim_coords=True)],
            [c.name() for c in cube.coords(dim_coords=True)
             if c.var_name != "threshold"], "dimensions")
    return bool(want.min() != want.max())


def gen_ens():
    from vp import gens as g

    @g.composite
    def case(draw):
        kind = draw(g.sampled(["realization", "percentile"]))
        n = draw(g.integers(1, 5)) if kind == "realization" else draw(g.sampled([1, 3, 4, 9]))
        grid = draw(g.xy_grid(1, 3))
        shape = [n, grid["ny"], grid["nx"]]
        m = draw(g.mask(shape[1:]))
        return {"kind": kind, "n": n, "grid": grid, "shape": shape,
                "values": draw(g.field(shape, g.grid_ints(-8, 8, 0.5))),
                "mask": None if m is None else m * n, "times": draw(g.times())}

    return case()


def run_ens(case):
    from improver.expected_value import ExpectedValue
    from vp import cubes as c

    n = case["n"]
    data = c.array(case)
    if case["kind"] == "percentile":
        data = np.ma.sort(data, axis=0) if np.ma.isMaskedArray(data) else np.sort(data, 0)
        lead = c.percentile_coord([100.0 * (i + 1) / (n + 1) for i in range(n)])
    else:
        lead = c.realization_coord(range(n))
    cube = c.new_cube(data, "air_temperature", "K", [lead] + c.yx_coords(case["grid"]),
                      c.time_coords(case["times"]))
    d, m = o.plain(data)
    want = d.astype(np.float64).mean(axis=0)
    result = ExpectedValue()(cube)
    o.close_masked(result.data, want, m[0], "ensemble mean", rtol=2e-6, atol=2e-6)
    if case["kind"] == "realization":
        o.equal([(x.method, x.coord_names) for x in result.cell_methods], [("mean", ("realization",))], "cell methods")
    o.equal(result.name(), "air_temperature", "name")
    o.check(not result.coords(case["kind"]), "%s coordinate kept", case["kind"])
    return bool(want.min() != want.max())


SUBS = {"between": Sub(gen_between, run_between, 3), "invert": Sub(gen_invert, run_invert, 2),
        "expected": Sub(gen_ev, run_ev, 3), "ensemble": Sub(gen_ens, run_ens, 1.5)}
