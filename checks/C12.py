"""C12: percentiles - resampling, from probabilities, from collapsed dimensions."""
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: percentile and threshold cubes in any dimension order, gridded and spot, with "
        "time / realization dimensions and masks; plateaus in the distribution; requested "
        "percentiles in any order, including 0 and 100; with and without distribution bounds; "
        "non-trivial when the distribution varies")
QUICK = 3600
THOROUGH = 50000
# diagnostic, units, factor / offset from the bounds' units, (lower, upper) bounds, name suffix
PHEN = [("air_temperature", "K", (173.15, 333.15)), ("air_temperature", "celsius", (-100., 60.)),
        ("wind_speed", "m s-1", (0., 50.)), ("cloud_area_fraction", "1", (0., 1.)),
        ("lwe_precipitation_rate", "mm h-1", (0., 400.)),
        ("lwe_precipitation_rate", "m s-1", (0., 400. / 3.6e6)),
        ("visibility_in_air", "km", (0., 100.)), ("relative_humidity", "%", (0., 120.))]


def gen_perc_list(draw, g):
    how = draw(g.sampled(["list", "list", "list", "count", "none"]))
    if how == "list":
        p = draw(g.lists(g.sampled([0.0, 3.125, 6.25, 12.5, 25.0, 37.5, 50.0, 62.5, 75.0, 87.5,
                                    96.875, 100.0]), min_size=1, max_size=5, unique=True))
        return {"how": how, "list": p}
    return {"how": how, "n": draw(g.integers(1, 6))}


def gen_resample():
    from vp import gens as g

    @g.composite
    def case(draw):
        pts = sorted(draw(g.lists(g.sampled([0.0, 10.0, 12.5, 25.0, 40.0, 50.0, 75.0, 90.0,
                                             100.0]), min_size=1, max_size=5, unique=True)))
        n = len(pts)
        lay = draw(g.layout(n))
        shape = [n] + lay["inner"]
        return {"points": pts, "lay": lay, "phen": draw(g.integers(0, len(PHEN) - 1)),
                "values": draw(g.field(shape, g.grid_ints(0, 1, 1 / 32.0))),
                "mask": draw(g.mask(lay["inner"])), "req": gen_perc_list(draw, g),
                "skip": draw(g.booleans()), "warn": draw(g.booleans()),
                "out": draw(g.sampled([None, None, None, "low", "high"])),
                "refuse": draw(g.sampled([None] * 17 + ["above", "below", "descending"])),
                "at": draw(g.integers(0, 4))}

    return case()


def called(plugin, *args, **kw):
    """(result, whether values beyond the bounds were warned of)"""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        res = plugin(*args, **kw)
    return res, any("bound" in str(w.message) for w in caught)


def targets(req, n_default):
    if req["how"] == "list":
        return list(req["list"]), {"percentiles": list(req["list"])}
    n = req["n"] if req["how"] == "count" else n_default
    want = [100.0 * (i + 1) / (n + 1) for i in range(n)]
    return want, ({"no_of_percentiles": n} if req["how"] == "count" else {})


def compare(res, lay, want, mask, perc, what):
    """want [perc, *inner] in ascending order of the requested percentiles."""
    coord = res.coord("percentile")
    order = np.argsort(perc)
    o.close(coord.points, np.sort(perc), what + ": percentiles", rtol=1e-5)
    o.equal(str(coord.units), "%", what + ": units of the percentiles")
    from vp import cubes as c
    got = c.aligned(res, lay, "percentile")
    scale = np.abs(want).max() or 1.0
    o.close_masked(got, want[order], mask, what, rtol=2e-5, atol=2e-6 * scale)


def run_resample(case):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ResamplePercentiles
    from vp import cubes as c

    name, units, (lo, hi) = PHEN[case["phen"]]
    lay, pts = case["lay"], np.array(case["points"])
    f = np.array(case["values"]).reshape([len(pts)] + lay["inner"])
    data = np.sort(lo + (hi - lo) * f, axis=0)
    if case["out"] == "low":
        data = data - (hi - lo) * (1.25 - f.min())
    elif case["out"] == "high":
        data = data + (hi - lo) * (1.25 - f.max())
    data = data.astype(np.float32)
    ref = data.astype(np.float64)
    mask = np.zeros(lay["inner"], bool)
    if case["mask"] is not None:
        mask = np.array(case["mask"], bool).reshape(lay["inner"])
        if mask.all():
            o.reject("all masked")
        data = np.ma.masked_array(data, np.broadcast_to(mask, data.shape))
    lo, hi = np.float32(lo), np.float32(hi)
    live = ref[:, ~mask]
    cube = c.layout_cube(lay, data, name, units, c.percentile_coord(pts))
    perc, kw = targets(case["req"], len(pts))
    plugin = ResamplePercentiles(ecc_bounds_warning=case["warn"], skip_ecc_bounds=case["skip"])
    if case["refuse"] == "descending":
        if len(pts) == 1 or case["skip"]:
            return False
        plugin = ResamplePercentiles(ecc_bounds_warning=True)
        turned = c.layout_cube(lay, data[::-1], name, units, c.percentile_coord(pts[::-1]))
        o.raises(ValueError, plugin, turned, **kw)
        return True
    if case["refuse"]:
        wrong = [10.0, 50.0]
        wrong.insert(case["at"] % 3, 100.5 if case["refuse"] == "above" else -0.5)
        o.raises(ValueError, plugin, cube, percentiles=wrong)
        return True
    tol = 1e-5 * (hi - lo)
    beyond = live.min() < lo - tol or live.max() > hi + tol
    if not case["skip"] and not beyond and (live.min() < lo or live.max() > hi):
        # rounding of the bounds themselves
        plugin.ecc_bounds_warning = True
    if beyond and not case["skip"] and not case["warn"]:
        o.raises(ValueError, plugin, cube, **kw)
        o.label("out of bounds refused")
        return True
    res, warned = called(plugin, cube, **kw)
    if beyond or case["skip"]:
        o.equal(warned, bool(beyond and not case["skip"]), "warned of values out of bounds")
    if case["skip"]:
        xs, ends = pts, None
    else:
        xs = np.concatenate([[0.0], pts, [100.0]])
        low, high = float(lo), float(hi)
        if beyond:
            low, high = min(low, live.min()), max(high, live.max())
        ends = (low, high)
    want = np.empty([len(perc)] + lay["inner"])
    for idx in np.ndindex(*lay["inner"]):
        ys = ref[(slice(None),) + idx]
        if ends:
            ys = np.concatenate([[ends[0]], ys, [ends[1]]])
        for i, p in enumerate(perc):
            k = 0
            if p <= xs[0]:
                want[(i,) + idx] = ys[len([x for x in xs if x <= p]) - 1] if p == xs[0] \
                    else ys[0]
                continue
            if p >= xs[-1]:
                want[(i,) + idx] = ys[-1]
                continue
            while not xs[k] <= p < xs[k + 1]:
                k += 1
            want[(i,) + idx] = ys[k] + (p - xs[k]) * (ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k])
    if ends and (pts[0] == 0 or pts[-1] == 100):
        # two values are given for percentile 0 or 100: the forecast or the bound
        skip = [i for i, p in enumerate(perc) if p in (0.0, 100.0) and p in pts]
        keep = [i for i in range(len(perc)) if i not in skip]
        if skip:
            got = c.aligned(res, lay, "percentile")
            srt = np.argsort(np.argsort(perc))
            for i in skip:
                a = np.ma.getdata(got[srt[i]])[~mask]
                b = ref[0 if perc[i] == 0 else -1][~mask]
                end = ends[0 if perc[i] == 0 else 1]
                o.check(((np.abs(a - b) < 1e-4 * (hi - lo)) | (np.abs(a - end) < 1e-4 * (
                    hi - lo))).all(), "percentile %s: %s", perc[i], o.show(a))
            if not keep:
                return False
            rows = [int(srt[i]) for i in keep]
            want = want[keep]
            o.close_masked(got[rows], want, np.broadcast_to(mask, want.shape), "resampled",
                           rtol=2e-5, atol=2e-5 * float(hi - lo))
            return True
    compare(res, lay, want, np.broadcast_to(mask, want.shape), np.array(perc), "resampled")
    o.equal((res.name(), str(res.units)), (name, units), "name and units")
    o.label("spot" if lay["spot"] else "grid", lay["lead"], "masked" if mask.any() else "",
            "skip" if case["skip"] else "bounds", case["req"]["how"])
    return ref.min() != ref.max()


def gen_prob():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.integers(1, 5))
        lay = draw(g.layout(n if n > 1 else draw(g.sampled([0, 1]))))
        fr = sorted(draw(g.lists(g.integers(1, 31), min_size=n, max_size=n, unique=True)))
        shape = [n] + lay["inner"]
        return {"fr": fr, "lay": lay, "phen": draw(g.integers(0, len(PHEN) - 1)),
                "scalar": "main" not in lay["dims"],
                "values": draw(g.field(shape, g.grid_ints(0, 1, draw(g.sampled(
                    [1 / 4.0, 1 / 64.0]))))),
                "mask": draw(g.mask(lay["inner"])), "req": gen_perc_list(draw, g),
                "relative": draw(g.sampled(["above", "below", "greater_than_or_equal_to",
                                            "less_than_or_equal_to"])),
                "skip": draw(g.booleans()), "warn": draw(g.booleans()),
                "out": draw(g.sampled([None, None, None, None, "low", "high"])),
                "mp": draw(g.integers(0, 3)) == 0, "random": draw(g.integers(0, 9)) == 0,
                "both": draw(g.integers(0, 29)) == 0, "method": draw(g.booleans()),
                "vic": draw(g.sampled(["", "", "_in_vicinity", "_in_variable_vicinity"]))}

    return case()


def run_prob(case):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
        ConvertProbabilitiesToPercentiles)
    from vp import cubes as c

    name, units, (lo, hi) = PHEN[case["phen"]]
    lay = case["lay"]
    thr = lo + (hi - lo) * np.array(case["fr"]) / 32.0
    if case["out"] == "low":
        thr[0] = lo - (hi - lo)
    elif case["out"] == "high":
        thr[-1] = hi + (hi - lo)
    thr = thr.astype(np.float32)
    n = len(thr)
    cdf = np.sort(np.array(case["values"]).reshape([n] + lay["inner"]), axis=0)
    above = case["relative"] in ("above", "greater_than_or_equal_to")
    data = (1.0 - cdf if above else cdf).astype(np.float32)
    mask = np.zeros(lay["inner"], bool)
    if case["mask"] is not None:
        mask = np.array(case["mask"], bool).reshape(lay["inner"])
        if mask.all():
            o.reject("all masked")
        data = np.ma.masked_array(data, np.broadcast_to(mask, data.shape))
    coord = c.threshold_coord(thr, name, units, case["relative"])
    if case["scalar"]:
        data = data[0]
    cube = c.layout_cube(lay, data, "probability_of_%s%s_%s_threshold" % (
        name, case["vic"], "above" if above else "below"), "1", coord)
    if case["method"]:
        from iris.coords import CellMethod

        cube.add_cell_method(CellMethod("maximum", coords="time",
                                        comments="of %s" % (name + case["vic"])))
    perc, kw = targets(case["req"], n)
    plugin = ConvertProbabilitiesToPercentiles(
        ecc_bounds_warning=case["warn"], skip_ecc_bounds=case["skip"],
        mask_percentiles=case["mp"])
    if case["out"] and not case["skip"] and not case["warn"]:
        o.raises(ValueError, plugin, cube, **kw)
        o.label("out of bounds refused")
        return True
    if case["both"]:
        o.raises(ValueError, plugin, cube, no_of_percentiles=2, percentiles=[25.0, 75.0])
        return True
    if case["random"] and case["req"]["how"] != "list":
        kw["sampling"] = "random"
    elif len(perc) == 1 and case["random"]:
        kw["percentiles"] = perc[0]
    res, warned = called(plugin, cube, **kw)
    o.equal(warned, bool(case["out"] and not case["skip"]), "warned of values out of bounds")
    if "sampling" in kw:
        pts = res.coord("percentile").points
        o.equal(len(pts), len(perc), "number of percentiles")
        o.check((pts >= 0).all() and (pts <= 100).all() and (np.diff(pts) >= 0).all(),
                "percentiles %s", pts)
        o.check(len(pts) == 1 or np.abs(pts - np.array(perc)).max() > 1e-4,
                "random percentiles %s", pts)
        perc = [float(v) for v in pts]
    o.equal([(m.method, tuple(m.coord_names), tuple(m.comments)) for m in res.cell_methods],
            [("maximum", ("time",), ())] if case["method"] else [], "cell methods")
    o.check(not [x for x in res.coords() if x.name() in (name, "threshold")],
            "threshold coordinate left behind")
    o.equal(res.name(), name + case["vic"], "name")
    o.equal(str(res.units), units, "units")
    perc = np.array(perc)
    o.close(res.coord("percentile").points, np.sort(perc), "percentiles", rtol=1e-5)
    got = c.aligned(res, lay, "percentile")
    o.equal(got.shape, (len(perc),) + tuple(lay["inner"]), "shape")
    want_mask = np.broadcast_to(mask, got.shape).copy()
    eps = 1e-6
    tol = 1e-5 * (hi - lo) * (4 if case["out"] else 1)
    gd, gm = o.plain(got)
    for i, p in enumerate(np.sort(perc) / 100.0):
        for idx in np.ndindex(*lay["inner"]):
            if mask[idx]:
                continue
            xs, ys = cdf[(slice(None),) + idx], thr.astype(np.float64)
            exists = xs[-1]
            if case["mp"]:
                if abs(p - exists) < eps:
                    want_mask[(i,) + idx] = gm[(i,) + idx]
                else:
                    want_mask[(i,) + idx] = p > exists
            if want_mask[(i,) + idx]:
                continue
            if not case["skip"]:
                xs = np.concatenate([[0.0], xs, [1.0]])
                ys = np.concatenate([[min(lo, ys[0])], ys, [max(hi, ys[-1])]])
            # every t with F(t-) <= p <= F(t)
            low = ys[np.argmax(xs >= p - eps)] if (xs >= p - eps).any() else ys[-1]
            k = len(xs) - 1 - np.argmax((xs <= p + eps)[::-1])
            high = ys[k] if (xs <= p + eps).any() else ys[0]
            if low > high:
                # strictly between two points of the distribution
                j = int(np.argmax(xs > p))
                v = ys[j - 1] + (p - xs[j - 1]) * (ys[j] - ys[j - 1]) / (xs[j] - xs[j - 1])
                low = high = v
            x = gd[(i,) + idx]
            o.check(low - tol <= x <= high + tol, "percentile %s at %s is %s, expected %s-%s "
                    "(cdf %s at %s)", 100 * p, idx, x, low, high, xs.tolist(), ys.tolist())
    o.check(np.array_equal(gm, want_mask), "mask %s, expected %s", o.show(gm),
            o.show(want_mask))
    o.label("spot" if lay["spot"] else "grid", lay["lead"], "masked" if mask.any() else "",
            "mask_percentiles" if case["mp"] else "", "above" if above else "below")
    return cdf.min() != cdf.max()


def gen_collapse():
    from vp import gens as g

    @g.composite
    def case(draw):
        k = draw(g.integers(1, 6))
        lay = draw(g.layout(k, leads=("none", "none", "time"), spot=True))
        coords = ["realization", "time", "xy"]
        return {"k": k, "lay": lay, "values": draw(g.field([k] + lay["inner"], g.grid_ints(
            -20, 20, 0.5))), "over": draw(g.sampled(coords)), "fast": draw(g.booleans()),
            "perc": draw(g.sampled([None, "list", "list"])),
            "list": sorted(draw(g.lists(g.integers(0, 40).map(lambda v: 2.5 * v), min_size=1,
                                        max_size=5, unique=True))),
            "dtype": draw(g.sampled(["float32", "float32", "int32"])),
            "missing": draw(g.integers(0, 29)) == 0,
            "bad": draw(g.sampled([None] * 9 + [5, 1.5]))}

    return case()


def run_collapse(case):
    from iris.exceptions import CoordinateNotFoundError
    from improver.percentile import PercentileConverter
    from vp import cubes as c

    lay, k = case["lay"], case["k"]
    a = np.array(case["values"]).reshape([k] + lay["inner"]).astype(case["dtype"])
    cube = c.layout_cube(lay, a, "air_temperature", "K", c.realization_coord(np.arange(k)))
    if case["over"] == "realization":
        names, axes = ["realization"], (0,)
    elif case["over"] == "time":
        if not lay["k"]:
            o.reject("no time dimension")
        names, axes = ["time"], (1,)
    else:
        if lay["spot"]:
            o.reject("no grid")
        names = [cube.coord(axis="x").name(), cube.coord(axis="y").name()]
        axes = (a.ndim - 2, a.ndim - 1)
    kw = {"percentiles": case["list"]} if case["perc"] else {}
    perc = case["list"] if case["perc"] else [0, 5, 10, 20, 25, 30, 40, 50, 60, 70, 75, 80, 90,
                                              95, 100]
    if case["missing"]:
        o.raises(CoordinateNotFoundError, PercentileConverter(
            names + ["height"], **kw), cube)
        return False
    if case["bad"]:
        o.raises(TypeError, PercentileConverter, case["bad"])
        o.raises(TypeError, PercentileConverter, [names[0], 3])
    before = o.snapshot(cube)
    plugin = PercentileConverter(names if len(names) > 1 else names[0],
                                 fast_percentile_method=case["fast"], **kw)
    res = plugin(cube)
    o.unchanged(before, cube)
    keep = [i for i in range(a.ndim) if i not in axes]
    flat = np.sort(a.astype(np.float64).transpose(keep + list(axes)).reshape(
        [a.shape[i] for i in keep] + [-1]), axis=-1)
    m = flat.shape[-1]
    want = []
    for p in perc:
        h = p / 100.0 * (m - 1)
        i = min(int(h), max(m - 2, 0))
        j = min(i + 1, m - 1)
        want.append(flat[..., i] + (h - i) * (flat[..., j] - flat[..., i]))
    want = np.array(want)
    o.close(res.coord("percentile").points, perc, "percentiles", rtol=1e-6)
    o.equal(str(res.coord("percentile").units), "%", "units")
    for n in names:
        o.check(not res.coords(n), "coordinate %s still there", n)
    dims = ["percentile"] if len(perc) > 1 else []
    left = [["realization"] + ([lay["lead"]] if lay["k"] else []) + (
        ["spot_index"] if lay["spot"] else [cube.coord(axis="y").name(),
                                             cube.coord(axis="x").name()])][0]
    left = [x for i, x in enumerate(left) if i in keep]
    order = [res.coord_dims(x)[0] for x in dims + left]
    got = res.data.transpose(order)
    if not dims:
        want = want[0]
    if case["dtype"] == "int32":
        o.equal(res.dtype, np.dtype("int32"), "type")
        o.check((np.abs(got - want) < 1.0 + 1e-6).all(), "percentiles %s, expected %s",
                o.show(got), o.show(want))
    else:
        o.close(got, want, "percentiles", rtol=1e-5, atol=2e-4)
    o.equal(res.cell_methods, cube.cell_methods, "cell methods")
    o.label(case["over"], "fast" if case["fast"] else "slow")
    return m > 1 and a.min() != a.max()


SUBS = {"resample": Sub(gen_resample, run_resample, 2), "probabilities": Sub(gen_prob, run_prob, 3),
        "collapse": Sub(gen_collapse, run_collapse, 1)}
