"""C14: ensemble reordering and rebadging between percentiles and realizations."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: calibrated percentiles and raw ensembles of equal or different sizes with ties, "
        "several times, masks, any dimension order and any realization numbers, ordered or "
        "random; realizations and percentiles to be rebadged; non-trivial when the raw ensemble "
        "is not constant and has more than one member")
QUICK = 3600
THOROUGH = 50000


def gen_order():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.sampled([1, 2, 3, 4, 5, 35]))
        m = draw(g.sampled([n, n, n, 2, 3, 7])) if n < 30 else n
        lay = draw(g.layout(n, leads=("none", "none", "time"), spot=True))
        start = draw(g.sampled([0, 0, 1, 4]))
        step = draw(g.sampled([1, 1, 1, 3])) if n == m else 1
        return {"n": n, "m": m, "lay": lay, "real": [start + step * i for i in range(m)],
                "cal": draw(g.field([min(n, 6)] + lay["inner"], g.grid_ints(-20, 20, 0.25))),
                "raw": draw(g.field([min(m, 6)] + lay["inner"], g.integers(-4, 4))),
                "mask": draw(g.mask(lay["inner"])),
                "masked": draw(g.sampled(["none", "none", "cal", "both", "both", "raw", "other"])),
                "random": draw(g.integers(0, 4)) == 0,
                "scale": draw(g.sampled([1.0, 1.0, 1.0, 2.0 ** -30, 2.0 ** 20])),
                "seed": draw(g.sampled([None, 0, 3, "7"])), "uneven": draw(g.integers(0, 14)) == 0}

    return case()


def stretch(values, n, shape):
    a = np.array(values, np.float64).reshape([-1] + shape)
    if len(a) == n:
        return a
    return np.stack([a[i % len(a)] * (1.0 if i < len(a) else -0.5 + 0.125 * i) for i in range(n)])


def run_order(case):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering
    from vp import cubes as c

    lay, n, m = case["lay"], case["n"], case["m"]
    inner = lay["inner"]
    if lay["k"] == 1:
        o.reject("time of length one")
    cal = np.sort(stretch(case["cal"], n, inner), axis=0).astype(np.float32)
    # the differences between members are tiny in some units, such as m s-1
    raw = (stretch(case["raw"], m, inner) * case["scale"]).astype(np.float32)
    perc = 100.0 * np.arange(1, n + 1) / (n + 1)
    if case["uneven"] and n > 1:
        perc[-1] = 99.9
    mask = np.zeros(inner, bool)
    if case["mask"] is not None:
        mask = np.array(case["mask"], bool).reshape(inner)
        if lay["lead"] == "time" and lay["k"]:
            mask = np.broadcast_to(mask[:1], mask.shape)
    masked = case["masked"] if mask.any() else "none"
    if mask.all():
        o.reject("all masked")
    cd, rd = cal, raw
    if masked in ("cal", "both"):
        cd = np.ma.masked_array(cal, np.broadcast_to(mask, cal.shape))
    if masked == "other":
        # one member of the raw ensemble is masked elsewhere
        cd = np.ma.masked_array(cal, np.broadcast_to(mask, cal.shape))
        wrong = np.broadcast_to(mask, raw.shape).copy()
        wrong[(len(case["real"]) - 1 if n != 2 else 0,) + tuple(np.argwhere(~mask)[0])] = True
        rd = np.ma.masked_array(raw, wrong)
    if masked in ("raw", "both"):
        rd = np.ma.masked_array(raw, np.broadcast_to(mask, raw.shape))
    if n == 1 and m != n:
        o.reject("one percentile of a larger ensemble")
    ccube = c.layout_cube(lay, cd, "air_temperature", "K", c.percentile_coord(perc))
    rcube = c.layout_cube(lay, rd, "air_temperature", "K", c.realization_coord(case["real"]))
    seed = case["seed"]
    kw = {"random_ordering": case["random"], "random_seed": seed}
    if masked in ("raw", "other"):
        o.raises(ValueError, EnsembleReordering(), ccube, rcube, **kw)
        o.label("unmatched mask refused")
        return False
    if case["uneven"] and n > 1:
        o.raises(ValueError, EnsembleReordering(), ccube, rcube, **kw)
        o.label("uneven percentiles refused")
        return False
    inputs = ccube.copy(), rcube.copy()
    res = EnsembleReordering()(ccube, rcube, **kw)
    pts = res.coord("realization").points.tolist()
    want = case["real"] if n == m else [case["real"][0] + i for i in range(n)]
    o.equal(pts, want, "realization numbers")
    o.check(not res.coords("percentile"), "percentile coordinate left")
    o.equal(str(res.coord("realization").units), "1", "units of the realizations")
    got = c.aligned(res, lay, "realization")
    gd, gm = o.plain(got)
    if masked == "none":
        o.check(not gm.any(), "result is masked")
    else:
        o.check(np.array_equal(gm, np.broadcast_to(mask, gm.shape)), "mask %s, expected %s",
                o.show(gm), o.show(mask))
    use = np.stack([raw[i % m] for i in range(n)])
    for idx in np.ndindex(*inner):
        if gm[(0,) + idx]:
            continue
        at = (slice(None),) + idx
        x, y, z = gd[at], cal[at], use[at]
        o.equal(np.sort(x).tolist(), y.tolist(), "values at %s" % (idx,))
        if not case["random"]:
            order = np.argsort(z, kind="stable")
            for a, b in zip(order[:-1], order[1:]):
                o.check(z[a] == z[b] or x[a] <= x[b], "at %s realizations %s have raw values "
                        "%s and calibrated values %s", idx, want, z.tolist(), x.tolist())
            # across ties the extremes must still be in order
            for v in sorted(set(z.tolist()))[1:]:
                o.check(x[z < v].max() <= x[z >= v].min(), "order at %s", idx)
    if seed is not None:
        again = EnsembleReordering()(inputs[0], inputs[1], **kw)
        o.check(np.array_equal(np.ma.filled(again.data, 0), np.ma.filled(res.data, 0)),
                "not reproducible with seed %s", seed)
    o.label("random" if case["random"] else "ordered", masked, "equal" if n == m else
            "more" if n > m else "fewer", "time" if lay["k"] else "")
    return raw.min() != raw.max()


def gen_badge():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.sampled([1, 2, 3, 4, 9]))
        lay = draw(g.layout(n, leads=("none", "none", "time")))
        return {"n": n, "lay": lay, "scalar": draw(g.integers(0, 5)) == 0,
                "values": draw(g.field([n] + lay["inner"], g.grid_ints(-20, 20, 0.5))),
                "optimal": draw(g.booleans()), "start": draw(g.sampled([0, 0, 5])),
                "kind": draw(g.sampled(["even", "even", "ends", "bad", "near"])),
                "numbers": draw(g.booleans()), "exists": draw(g.integers(0, 9)) == 0}

    return case()


def run_badge(case):
    from iris.exceptions import CoordinateNotFoundError, InvalidCubeError
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
        RebadgePercentilesAsRealizations, RebadgeRealizationsAsPercentiles)
    from vp import cubes as c

    lay, n = case["lay"], case["n"]
    a = np.array(case["values"], np.float32).reshape([n] + lay["inner"])
    one = case["scalar"] and n == 1
    cube = c.layout_cube(lay, a[0] if one else a, "air_temperature", "K",
                         c.realization_coord(np.arange(case["start"], case["start"] + n)))
    before = o.snapshot(cube)
    plugin = RebadgeRealizationsAsPercentiles(optimal_crps_percentiles=case["optimal"])
    res = plugin(cube)
    o.unchanged(before, cube)
    want = [(100.0 * (k + 0.5) / n) if case["optimal"] else 100.0 * (k + 1) / (n + 1)
            for k in range(n)]
    o.close(res.coord("percentile").points, want, "percentiles", rtol=1e-6)
    o.equal(str(res.coord("percentile").units), "%", "units")
    o.check(not res.coords("realization"), "realization left")
    got = c.aligned(res, lay, "percentile")
    o.close(got, np.sort(a, axis=0), "sorted members", rtol=0, atol=0)
    res.remove_coord("percentile")
    o.raises(CoordinateNotFoundError, plugin, res)
    # percentiles to realizations
    pts = 100.0 * np.arange(1, n + 1) / (n + 1)
    if case["kind"] == "ends" and n > 2:
        pts = np.linspace(0, 100, n)
    elif case["kind"] == "bad":
        pts = np.array(sorted(set([10.0, 20.0, 30.0, 40.0, 55.0, 60.0, 75.0, 80.0, 90.0][:n])))
        if n == 1:
            pts = np.array([30.0])
    elif case["kind"] == "near":
        # one of them a little off
        pts[n // 2] += 5.0 / n
    cube = c.layout_cube(lay, a, "air_temperature", "K", c.percentile_coord(pts))
    numbers = np.arange(7, 7 + n, dtype=np.int32) if case["numbers"] else None
    if case["kind"] in ("bad", "near"):
        o.raises(ValueError, RebadgePercentilesAsRealizations(), cube, numbers)
        return n > 1
    if case["exists"]:
        cube.add_aux_coord(c.realization_coord([0]))
        o.raises(InvalidCubeError, RebadgePercentilesAsRealizations(), cube, numbers)
        return n > 1
    res = RebadgePercentilesAsRealizations()(cube, numbers)
    o.equal(res.coord("realization").points.tolist(), list(range(7, 7 + n)) if case["numbers"]
            else list(range(n)), "realizations")
    o.equal(res.coord("realization").points.dtype, np.dtype("int32"), "type of realizations")
    o.check(not res.coords("percentile"), "percentile left")
    o.close(c.aligned(res, lay, "realization"), a, "values", rtol=0, atol=0)
    return n > 1


def gen_ties():
    from vp import gens as g

    @g.composite
    def case(draw):
        return {"n": draw(g.integers(6, 9)), "levels": draw(g.integers(1, 2)), "data": draw(g.integers(0, 99)),
                "seeds": draw(g.lists(g.integers(0, 99), min_size=2, max_size=2, unique=True))}

    return case()


def run_ties(case):
    """Equal raw values are put in an order that depends on the seed alone."""
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering
    from vp import cubes as c

    n = case["n"]
    rng = np.random.RandomState(case["data"])
    cal = np.sort(rng.permutation(n * 36).astype(np.float32).reshape(n, 6, 6), axis=0)
    raw = rng.randint(0, case["levels"], (n, 6, 6)).astype(np.float32)
    space = c.yx_coords({"kind": "laea", "ny": 6, "nx": 6, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0})
    when = c.time_coords({"frt": 1510286400, "fp": 7200})
    out = []
    for seed in case["seeds"] + case["seeds"][:1]:
        ccube = c.new_cube(cal.copy(), "air_temperature", "K",
                           [c.percentile_coord(100.0 * np.arange(1, n + 1) / (n + 1))] + space, when)
        rcube = c.new_cube(raw.copy(), "air_temperature", "K", [c.realization_coord(np.arange(n))] + space, when)
        out.append(np.array(EnsembleReordering()(ccube, rcube, random_seed=seed).data))
    o.check(np.array_equal(out[0], out[2]), "not reproducible with seed %s", case["seeds"][0])
    o.check(not np.array_equal(out[0], out[1]), "the order of equal members does not depend on the seed")
    return True


SUBS = {"reorder": Sub(gen_order, run_order, 2), "rebadge": Sub(gen_badge, run_badge, 1),
        "ties": Sub(gen_ties, run_ties, 0.1)}
