"""C09: numerical helpers - integration, linear fits, rescaling, filling of gaps."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: profiles over 2-6 unevenly spaced levels in either order with start / end "
        "points (including 0), arrays with masks or NaN for fits along any axis, rescaling "
        "ranges of either sign, gappy fields that are affine or arbitrary; non-trivial when the "
        "expected result is not constant")
QUICK = 6000
THOROUGH = 80000


def gen_int():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.integers(2, 6))
        steps = draw(g.fixed(n - 1, g.sampled([1.0, 2.5, 5.0, 10.0])))
        base = draw(g.sampled([0.0, 0.0, 5.0, -10.0, -2.5]))
        grid = draw(g.xy_grid(1, 3))
        lead = draw(g.sampled([0, 0, 2]))
        shape = ([lead] if lead else []) + [n, grid["ny"], grid["nx"]]
        lv = [base]
        for s in steps:
            lv.append(lv[-1] + s)
        pt = g.sampled([None, None, 0.0, "lv", "mid", "out"])
        return {"levels": lv, "grid": grid, "shape": shape, "lead": lead,
                "values": draw(g.field(shape, g.grid_ints(-20, 20, 0.5))),
                "positive": draw(g.booleans()), "desc": draw(g.booleans()),
                "start": draw(pt), "end": draw(pt), "k": draw(g.integers(0, 5)),
                "hpos": draw(g.integers(0, 2)), "times": draw(g.times())}

    return case()


def run_int(case):
    from improver.utilities.mathematical_operations import Integration
    from iris.coords import DimCoord
    from vp import cubes as c

    lv = np.array(case["levels"])
    n = len(lv)

    def point(kind, k):
        if kind == "lv":
            return float(lv[k % n])
        if kind == "mid":
            return float((lv[k % (n - 1)] + lv[k % (n - 1) + 1]) / 2)
        if kind == "out":
            return float(lv[-1] + 100.0 if k % 2 else lv[0] - 100.0)
        return kind

    start, end = point(case["start"], case["k"]), point(case["end"], case["k"] + 1)
    a = np.array(case["values"], np.float32).reshape(case["shape"])
    h = DimCoord(lv.astype(np.float32), standard_name="height", units="m")
    lead = [c.realization_coord(range(case["lead"]))] if case["lead"] else []
    cube = c.new_cube(a, "wet_bulb_temperature", "celsius", lead + [h] + c.yx_coords(
        case["grid"]), c.time_coords(case["times"]))
    if case["desc"]:
        cube = cube[(slice(None),) * len(lead) + (slice(None, None, -1),)]
    order = list(range(cube.ndim))
    hd = len(lead)
    order.remove(hd)
    order.insert(min(case["hpos"], len(order)), hd)
    cube.transpose(order)
    z = np.moveaxis(a.astype(float), hd, 0)
    pos = case["positive"]
    idx = list(range(n - 1)) if pos else list(range(n - 2, -1, -1))
    total = 0.0
    want = {}
    for i in idx:
        lo, hi = lv[i], lv[i + 1]
        if start is not None and ((pos and lo < start) or (not pos and hi > start)):
            continue
        if end is not None and ((pos and hi > end) or (not pos and lo < end)):
            continue
        total = total + 0.5 * (hi - lo) * (np.maximum(z[i], 0) + np.maximum(z[i + 1], 0))
        want[hi if pos else lo] = (total, (lo, hi))
    plugin = Integration("height", start_point=start, end_point=end, positive_integration=pos)
    if not want:
        o.raises(ValueError, plugin, cube.copy())
        o.label("nothing to integrate")
        return False
    res = plugin(cube.copy())
    o.equal(res.name(), "wet_bulb_temperature_integral", "name")
    coord = res.coord("height")
    o.equal(sorted(coord.points.tolist()), sorted(want), "levels of the integral")
    bounds = np.atleast_2d(coord.bounds)
    for k, p in enumerate(coord.points):
        total, bnd = want[float(p)]
        dims = res.coord_dims("height")
        got = np.take(res.data, k, axis=dims[0]) if dims else res.data
        o.close(got, total, "integral at %s" % p, rtol=1e-5, atol=1e-4)
        o.equal(sorted(bounds[k].tolist()), sorted(map(float, bnd)), "bounds at %s" % p)
    if len(want) > 1:
        o.equal([x.name() for x in res.coords(dim_coords=True)],
                [x.name() for x in cube.coords(dim_coords=True)], "dimension order")
    o.label("positive" if pos else "negative", "start" if start is not None else "no start",
            "end" if end is not None else "no end")
    return total.max() > 0


def gen_fit():
    from vp import gens as g

    @g.composite
    def case(draw):
        nd = draw(g.integers(1, 3))
        shape = draw(g.fixed(nd, g.integers(1, 4)))
        axes = [None] + list(range(-nd, nd))
        if nd > 1:
            axes += [[0, 1], [-2, -1]]
        return {"shape": shape, "axis": draw(g.sampled(axes)),
                "x": draw(g.field(shape, g.grid_ints(-10, 10, 0.5))),
                "y": draw(g.field(shape, g.grid_ints(-10, 10, 0.5))),
                "miss": draw(g.sampled(["none", "mask", "nan", "mismatch"])),
                "m": draw(g.mask(shape)), "keep": draw(g.booleans()),
                "only": draw(g.booleans()), "dtype": draw(g.sampled(["float64", "float32"]))}

    return case()


def run_fit(case):
    from improver.utilities.mathematical_operations import fast_linear_fit

    x = np.array(case["x"]).reshape(case["shape"])
    y = np.array(case["y"]).reshape(case["shape"])
    m = np.zeros(x.shape, bool)
    miss = case["miss"]
    if case["m"] is not None:
        m = np.array(case["m"], bool).reshape(x.shape)
    if miss == "none":
        m[:] = False
    axis = tuple(case["axis"]) if isinstance(case["axis"], list) else case["axis"]
    xs, ys = x.astype(case["dtype"]), y.astype(case["dtype"])
    kw = {"axis": axis, "keepdims": case["keep"], "gradient_only": case["only"]}
    if miss == "mismatch":
        if not m.any() or m.all():
            o.reject("no mismatch")
        m2 = m.copy()
        m2.ravel()[int(np.argmax(m.ravel()))] = False
        m2.ravel()[int(np.argmin(m.ravel()))] = True
        if case["only"]:
            o.raises(ValueError, fast_linear_fit, np.ma.masked_array(xs, m),
                     np.ma.masked_array(ys, m2), **kw)
        else:
            o.raises(ValueError, fast_linear_fit, np.where(m, np.nan, xs),
                     np.where(m2, np.nan, ys), with_nan=True, **kw)
        o.label("mismatch refused")
        return False
    if miss == "nan":
        got = fast_linear_fit(np.where(m, np.nan, xs), np.where(m, np.nan, ys), with_nan=True,
                              **kw)
    elif miss == "mask":
        got = fast_linear_fit(np.ma.masked_array(np.where(m, 1e20, xs), m),
                              np.ma.masked_array(np.where(m, -1e20, ys), m), **kw)
    else:
        got = fast_linear_fit(xs, ys, **kw)
    nd = x.ndim
    ax = range(nd) if axis is None else [axis] if isinstance(axis, int) else axis
    ax = sorted(a % nd for a in ax)
    keep = [i for i in range(nd) if i not in ax]
    order = keep + ax
    xt = x.transpose(order).reshape([x.shape[i] for i in keep] + [-1])
    yt = y.transpose(order).reshape(xt.shape)
    mt = m.transpose(order).reshape(xt.shape)
    gshape = xt.shape[:-1]
    grad, icept, defined = np.zeros(gshape), np.zeros(gshape), np.zeros(gshape, bool)
    for idx in np.ndindex(*gshape):
        ok = ~mt[idx]
        a, b = xt[idx][ok], yt[idx][ok]
        if len(a) > 1 and a.max() > a.min():
            defined[idx] = True
            grad[idx], icept[idx] = np.polyfit(a, b, 1)
    out_shape = tuple(1 if i in ax else x.shape[i] for i in range(nd)) if case["keep"] \
        else gshape
    parts = [got] if case["only"] else list(got)
    for arr, want, name in zip(parts, (grad, icept), ("gradient", "intercept")):
        o.equal(np.shape(arr), out_shape, "shape of the " + name)
        arr = np.ma.filled(np.ma.asarray(arr, dtype=np.float64), np.nan).reshape(gshape)
        scale = np.abs(want).max() if want.size else 1.0
        o.close(np.where(defined, arr, 0.0), np.where(defined, want, 0.0), name, rtol=2e-3,
                atol=1e-4 * max(1.0, scale))
    o.label(miss, "axis %s" % (axis,))
    return bool(defined.any() and y.min() != y.max())


def gen_scale():
    from vp import gens as g

    @g.composite
    def case(draw):
        v = g.grid_ints(-8, 8, 0.5)
        shape = [draw(g.integers(1, 3)), draw(g.integers(1, 4))]
        three = sorted(draw(g.lists(v, min_size=3, max_size=3, unique=True)))
        return {"shape": shape, "values": draw(g.field(shape, v)), "range": draw(
            g.sampled([None, "given", "given"])), "d": [draw(v), draw(v)],
            "s": [draw(v), draw(v)], "clip": draw(g.booleans()), "three": three,
            "rev": draw(g.booleans()), "targets": draw(g.lists(v, min_size=3, max_size=3,
                                                              unique=True)),
            "other": draw(g.field(shape, v)), "max": draw(g.booleans())}

    return case()


def run_scale(case):
    from improver.utilities.rescale import apply_double_scaling, rescale
    from vp import cubes as c

    a = np.array(case["values"]).reshape(case["shape"])
    lo, hi = case["d"] if case["range"] else (a.min(), a.max())
    s0, s1 = case["s"]
    kw = {"data_range": tuple(case["d"]) if case["range"] else None,
          "scale_range": (s0, s1), "clip": case["clip"]}
    if lo == hi or s0 == s1:
        o.raises(ValueError, rescale, a, **kw)
        o.label("degenerate refused")
    else:
        want = s0 + (a - lo) * (s1 - s0) / (hi - lo)
        if case["clip"]:
            want = np.clip(want, min(s0, s1), max(s0, s1))
        o.close(rescale(a.copy(), **kw), want, "rescaled", rtol=1e-9, atol=1e-9)
    d, t = case["three"], case["targets"]
    dims = c.yx_coords({"kind": "laea", "ny": a.shape[0], "nx": a.shape[1], "dy": 2000,
                        "dx": 2000, "y0": 0, "x0": 0})
    b = np.array(case["other"]).reshape(case["shape"])
    ca = c.new_cube(a.astype(np.float32), "air_temperature", "K", dims)
    cb = c.new_cube(b.astype(np.float32), "air_temperature", "K", c.yx_coords(
        {"kind": "laea", "ny": a.shape[0], "nx": a.shape[1], "dy": 2000, "dx": 2000, "y0": 0,
         "x0": 0}))
    curve = np.interp(a, d, t)
    want = np.maximum(b, curve) if case["max"] else np.minimum(b, curve)
    kw = {"combine_function": np.maximum} if case["max"] else {}
    got = apply_double_scaling(ca, cb, tuple(d), tuple(t), **kw)
    o.close(got, want, "double scaling", rtol=1e-5, atol=1e-5)
    return a.min() != a.max()


def gen_fill():
    from vp import gens as g

    @g.composite
    def case(draw):
        ny, nx = draw(g.integers(2, 6)), draw(g.integers(2, 6))
        n = ny * nx
        bits = draw(g.integers(0, 2 ** n - 1)) & draw(g.integers(0, 2 ** n - 1))
        slab = draw(g.sampled([None, None, "top", "left"]))
        m = [(bits >> i) & 1 for i in range(n)]
        if slab:
            m = [1 if (i // nx if slab == "top" else i % nx) == 0 else v
                 for i, v in enumerate(m)]
        if all(m) or not any(m):
            m[0], m[-1] = 1, 0
        affine = draw(g.booleans())
        v = g.grid_ints(-8, 8, 0.5)
        return {"ny": ny, "nx": nx, "mask": m, "affine": affine,
                "coef": [draw(g.grid_ints(-2, 2, 0.5)) for _ in range(3)],
                "diff": draw(g.field([ny, nx], v)), "ref": draw(g.field([ny, nx], v)),
                "lead": draw(g.sampled([0, 0, 2])),
                "limit": draw(g.sampled([None, "max", "min"])),
                "lim": draw(g.field([ny, nx], v)), "units": draw(g.booleans()),
                "badref": draw(g.integers(0, 19)) == 0, "limkm": draw(g.booleans()), "turn": draw(g.booleans())}

    return case()


def hull_side(pts, p):
    """1 strictly inside the convex hull, 0 on its boundary, -1 outside (None if flat)."""
    pts = sorted(set(pts))

    def cross(a, b, q):
        return (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])

    def half(seq):
        h = []
        for q in seq:
            while len(h) > 1 and cross(h[-2], h[-1], q) <= 0:
                h.pop()
            h.append(q)
        return h[:-1]

    h = half(pts) + half(pts[::-1])
    if len(h) < 3:
        return None
    s = [cross(h[i], h[(i + 1) % len(h)], p) for i in range(len(h))]
    return -1 if min(s) < 0 else 0 if min(s) == 0 else 1


def run_fill(case):
    from improver.utilities.interpolation import (
        InterpolateUsingDifference, interpolate_missing_data)
    from vp import cubes as c

    ny, nx = case["ny"], case["nx"]
    m = np.array(case["mask"], bool).reshape(ny, nx)
    ref = np.array(case["ref"]).reshape(ny, nx)
    if case["affine"]:
        jj, ii = np.mgrid[:ny, :nx]
        diff = case["coef"][0] + case["coef"][1] * jj + case["coef"][2] * ii
    else:
        diff = np.array(case["diff"]).reshape(ny, nx)
    pts = [tuple(p) for p in np.argwhere(~m).tolist()]
    side = np.array([[hull_side(pts, (j, i)) for i in range(nx)] for j in range(ny)])
    flat = side[0, 0] is None
    # the array function
    data = np.where(m, np.nan, diff)
    out = interpolate_missing_data(data.copy())
    o.close(out[~m], diff[~m], "points that were present")
    if flat:
        o.check(np.isnan(out[m]).all(), "points filled without a triangulation: %s", out)
    else:
        inside = m & (side == 1)
        outside = m & (side == -1)
        o.check(np.isnan(out[outside]).all(), "points outside the hull were filled: %s", out)
        o.check(np.isfinite(out[inside]).all(), "points inside the hull not filled: %s", out)
        o.within(out[inside], diff[~m].min(), diff[~m].max(), "interpolated", tol=1e-6)
        if case["affine"]:
            o.close(out[inside], diff[inside], "linear field", atol=1e-6)
        lim = np.array(case["lim"]).reshape(ny, nx)
        for maxi in (True, False):
            got = interpolate_missing_data(data.copy(), limit=lim, limit_as_maximum=maxi)
            func = np.minimum if maxi else np.maximum
            want = np.where(m, func(out, lim), diff)
            want = np.where(m & np.isnan(out), np.nan, want)
            o.close(got, want, "limited")
    # the plugin
    grid = {"kind": "laea", "ny": ny, "nx": nx, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}
    lead = case["lead"]
    k = max(lead, 1)
    obs = np.ma.masked_array(np.tile((ref - diff)[None], (k, 1, 1)).astype(np.float32),
                             np.tile(m[None], (k, 1, 1)))
    refs = np.tile(ref[None], (k, 1, 1)).astype(np.float32)
    if lead:
        refs[1] += 3.0
        obs.data[1] += 3.0
    obs.data[obs.mask] = 999.0
    lc = [c.realization_coord(range(lead))] if lead else []
    obs = obs if lead else obs[0]
    refs = refs if lead else refs[0]
    cube = c.new_cube(obs, "sleet_level", "m", lc + c.yx_coords(grid))
    rcube = c.new_cube(refs, "orography", "m", (
        [c.realization_coord(range(lead))] if lead else []) + c.yx_coords(grid))
    limit = None
    if case["limit"]:
        limit = c.new_cube(np.array(case["lim"], np.float32).reshape(ny, nx), "limit", "m",
                           c.yx_coords(grid))
    if case["units"]:
        rcube.convert_units("km")
    if limit is not None and case.get("limkm"):
        limit.convert_units("km")
    if case["badref"]:
        rcube.data.ravel()[0] = np.nan
        o.raises(ValueError, InterpolateUsingDifference(), cube, rcube)
        return False
    plugin = InterpolateUsingDifference(limit_as_maximum=case["limit"] != "min")
    if lead and case.get("turn"):
        # slices with masks of their own are filled as they are alone
        two = cube.copy()
        two.data[1] = np.ma.masked_array(np.ma.getdata(two.data[1]), m[::-1, ::-1])
        two.data = np.ma.masked_array(np.stack([np.ma.getdata(two.data[0]), np.ma.getdata(cube.data[1])[::-1, ::-1]]),
                                      np.stack([m, m[::-1, ::-1]]))
        both = plugin(two.copy(), rcube.copy(), limit=None if limit is None else limit.copy())
        for r in range(2):
            one = plugin(two[r].copy(), rcube[r].copy(), limit=None if limit is None else limit.copy())
            o.close(np.ma.getdata(both[r].data), np.ma.getdata(one.data), "slice %d filled with another" % r)
        got = plugin(cube[0].copy(data=np.ma.getdata(cube.data[0])), rcube[0].copy())
        o.equal(np.ma.getdata(got.data).tolist(), np.ma.getdata(cube.data[0]).tolist(), "complete input")
    res = plugin(cube.copy(), rcube, limit=limit)
    o.check(not np.ma.is_masked(res.data), "masked points remain")
    o.equal(res.shape, cube.shape, "shape")
    got = np.ma.getdata(res.data).reshape(k, ny, nx).astype(float)
    lims = np.array(case["lim"]).reshape(ny, nx)
    for r in range(k):
        base = ref + 3.0 * (r == 1)
        o.close(got[r][~m], (base - diff)[~m], "points that were present", atol=1e-5)
        lo, hi = base - diff[~m].max(), base - diff[~m].min()
        best = None
        if case["affine"] and not flat:
            best = base - diff
        if case["limit"] == "max":
            lo, hi = np.minimum(lo, lims), np.minimum(hi, lims)
            best = None if best is None else np.minimum(best, lims)
        elif case["limit"] == "min":
            lo, hi = np.maximum(lo, lims), np.maximum(hi, lims)
            best = None if best is None else np.maximum(best, lims)
        bad = m & ((got[r] < lo - 1e-3) | (got[r] > hi + 1e-3))
        o.check(not bad.any(), "filled values %s outside %s .. %s", got[r].tolist(),
                lo.tolist(), hi.tolist())
        if best is not None:
            sel = m & (side == 1)
            o.close(got[r][sel], best[sel], "filled from a linear difference", atol=2e-3)
        # beyond the hull: the difference of one of the nearest usable points
        if case["limit"] is None:
            usable = [p for p in np.argwhere(~m if flat else ~(m & (side == -1))).tolist()]
            d = base - got[r]
            for j, i in np.argwhere(m if flat else m & (side == -1)).tolist():
                dist = [(j - a) ** 2 + (i - b) ** 2 for a, b in usable]
                cand = [p for p, q in zip(usable, dist) if q == min(dist)]
                if not flat and any(m[a, b] and side[a, b] == 0 for a, b in usable):
                    continue
                o.check(any(abs(d[j, i] - d[a, b]) < 2e-3 for a, b in cand),
                        "point (%s, %s) has difference %s, not that of a nearest point %s",
                        j, i, d[j, i], cand)
    o.label("affine" if case["affine"] else "free", "flat" if flat else "hull",
            "limit %s" % case["limit"])
    return bool(diff.min() != diff.max())


SUBS = {"integration": Sub(gen_int, run_int, 2), "fit": Sub(gen_fit, run_fit, 2),
        "rescale": Sub(gen_scale, run_scale, 1), "fill": Sub(gen_fill, run_fill, 2)}
