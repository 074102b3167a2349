"""C13: percentiles and probabilities from the parameters of a distribution."""
from math import erfc, sqrt

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: location and scale fields (gridded or spot, masked, several units), normal and "
        "truncated normal distributions, templates with a realization or percentile dimension or "
        "thresholds of either relation, plugins used repeatedly; non-trivial when more than one "
        "percentile or threshold is requested")
QUICK = 3000
THOROUGH = 40000


def gen():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(draw(g.integers(1, 3)), leads=("none",), pos=False))
        runs = draw(g.integers(1, 2))
        n = draw(g.integers(1, 4))
        return {"lay": lay, "n": n, "runs": [{
            "loc": draw(g.field(lay["inner"], g.grid_ints(0, 20, 0.5))),
            "scale": draw(g.field(lay["inner"], g.sampled([0.5, 1.0, 2.0, 4.0, 8.0])))}
            for _ in range(runs)],
            "zero": draw(g.one_of(g.just([]), g.just([]), g.lists(g.integers(0, 8), min_size=1, max_size=4))),
            "mask": draw(g.mask(lay["inner"])), "mask2": draw(g.mask(lay["inner"])),
            "dist": draw(g.sampled(["norm", "truncnorm", "truncnorm"])),
            "upper": draw(g.sampled([None, 25.0])),
            "temp": draw(g.sampled(["realization", "percentile"])),
            "perc": draw(g.lists(g.sampled([1.0, 5.0, 12.5, 25.0, 50.0, 75.0, 90.0, 99.0]),
                                 min_size=1, max_size=4, unique=True)),
            "count": draw(g.sampled([None, None, 1, 3, 5])),
            "thr": sorted(draw(g.lists(g.grid_ints(-4, 24, 0.5), min_size=2, max_size=4,
                                       unique=True))),
            "above": draw(g.booleans()), "units": draw(g.sampled([None, None, "km h-1"])),
            "tdim": draw(g.booleans())}

    return case()


def cdf(x, loc, sc, lo, hi):
    """Distribution function of a normal truncated to [lo, hi]."""
    def upper(z):
        return 0.5 * erfc(z / sqrt(2))

    if lo is None:
        return 1.0 - upper((x - loc) / sc)
    a = (lo - loc) / sc
    b = np.inf if hi is None else (hi - loc) / sc
    z = min(max((x - loc) / sc, a), b)
    return (upper(a) - upper(z)) / (upper(a) - upper(b))


def params(case, run, units):
    from vp import cubes as c

    lay = case["lay"]
    shape = lay["inner"]
    loc, sc = (np.array(run[k]).reshape(shape) for k in ("loc", "scale"))
    mask = np.zeros(shape, bool)
    out = []
    for a, m in ((loc, case["mask"]), (sc, case["mask2"])):
        if units == "km h-1":
            a = a * 3.6
        a = a.astype(np.float32)
        if m is not None:
            m = np.array(m, bool).reshape(shape)
            mask |= m
            a = np.ma.masked_array(np.where(m, 77.0, a).astype(np.float32), m)
        out.append(c.layout_cube(lay, a, "wind_speed", units))
    return out, loc, sc, mask


def args(case):
    if case["dist"] == "norm":
        return {"distribution": "norm"}, None, None
    hi = case["upper"]
    return {"distribution": "truncnorm", "shape_parameters": np.array(
        [0.0, np.inf if hi is None else hi], np.float32)}, 0.0, hi


def run_perc(case):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
        ConvertLocationAndScaleParametersToPercentiles)
    from vp import cubes as c

    lay = case["lay"]
    kw, lo, hi = args(case)
    plugin = ConvertLocationAndScaleParametersToPercentiles(**kw)
    n = case["n"]
    coord = c.realization_coord(np.arange(n)) if case["temp"] != "percentile" else \
        c.percentile_coord(100.0 * np.arange(1, n + 1) / (n + 1))
    template = c.layout_cube(lay, np.zeros([n] + lay["inner"], np.float32), "wind_speed",
                             "m s-1", coord)
    if case["count"]:
        perc = [100.0 * (i + 1) / (case["count"] + 1) for i in range(case["count"])]
        req = {"no_of_percentiles": case["count"]}
    else:
        perc, req = case["perc"], {"percentiles": list(case["perc"])}
    for run in case["runs"]:
        if case["dist"] == "norm":
            # points of no spread
            flat = np.array(run["scale"], float).ravel()
            flat[[i % len(flat) for i in case["zero"]]] = 0
            run = dict(run, scale=flat)
        (lc, sc_), loc, sc, mask = params(case, run, "m s-1")
        res = plugin(lc, sc_, template.copy(), **req)
        o.close(res.coord("percentile").points, np.sort(perc), "percentiles", rtol=1e-5)
        got = c.aligned(res, lay, "percentile")
        o.equal(got.shape, (len(perc),) + tuple(lay["inner"]), "shape")
        gd, gm = o.plain(got)
        o.check(np.array_equal(gm, np.broadcast_to(mask, gm.shape)), "mask %s, expected %s",
                o.show(gm), o.show(mask))
        for i, p in enumerate(np.sort(perc) / 100.0):
            for idx in np.ndindex(*lay["inner"]):
                if mask[idx]:
                    continue
                x = float(gd[(i,) + idx])
                if sc[idx] == 0:
                    o.close(x, loc[idx], "percentile of a point mass")
                    continue
                f = cdf(x, loc[idx], sc[idx], lo, hi)
                o.check(abs(f - p) < 3e-5, "percentile %s at %s is %s where the distribution "
                        "(%s, %s) has %s", 100 * p, idx, x, loc[idx], sc[idx], f)
                if lo is not None:
                    o.check(x >= lo - 1e-4 and (hi is None or x <= hi + 1e-4),
                            "%s outside the truncation", x)
    o.label(case["dist"], "runs %d" % len(case["runs"]), case["temp"])
    return len(perc) > 1


def run_prob(case):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
        ConvertLocationAndScaleParametersToProbabilities)
    from vp import cubes as c

    lay = case["lay"]
    kw, lo, hi = args(case)
    plugin = ConvertLocationAndScaleParametersToProbabilities(**kw)
    thr = case["thr"]
    word = "above" if case["above"] else "below"
    template = c.layout_cube(lay, np.zeros([len(thr)] + lay["inner"], np.float32),
                             "probability_of_wind_speed_%s_threshold" % word, "1",
                             c.threshold_coord(thr, "wind_speed", "m s-1", word))
    for run in case["runs"]:
        (lc, sc_), loc, sc, mask = params(case, run, case["units"] or "m s-1")
        t = template.copy()
        if case["tdim"]:
            t.transpose(list(range(1, t.ndim)) + [0])
        res = plugin(lc, sc_, t)
        o.equal(res.name(), template.name(), "name")
        o.equal(str(res.units), "1", "units")
        o.close(res.coord("wind_speed").points, thr, "thresholds")
        got = c.aligned(res, lay, "wind_speed")
        want = np.array([[cdf(x, a, b, lo, hi) for a, b in zip(loc.ravel(), sc.ravel())]
                         for x in thr]).reshape(got.shape)
        if case["above"]:
            want = 1.0 - want
        o.close_masked(got, want, np.broadcast_to(mask, got.shape), "probabilities", atol=2e-5)
    o.label(case["dist"], "runs %d" % len(case["runs"]), word, case["units"])
    return True


SUBS = {"percentiles": Sub(gen, run_perc), "probabilities": Sub(gen, run_prob)}
