"""C04: neighbourhood means and sums."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: 2-4 dimensional fields with large plateaus of 0 / 1, masks, mask cubes, square "
        "and (weighted) circular kernels, lead-time dependent radii; non-trivial when some "
        "expected value differs from the input value at that point")
QUICK = 4000
THOROUGH = 60000


def plateau(draw, g, shape):
    """Background of one value with some other values: exercises trimming."""
    kind = draw(g.sampled(["free", "plateau", "plateau", "palette"]))
    if kind != "plateau":
        return draw(g.field(shape, draw(g.sampled([
            g.grid_ints(0, 1, 0.125), g.grid_ints(0, 1, 1), g.grid_ints(-4, 4, 0.5)]))))
    n = 1
    for k in shape:
        n *= k
    out = [draw(g.sampled([0.0, 1.0, 1.0, 0.5]))] * n
    for _ in range(draw(g.integers(1, 4))):
        out[draw(g.integers(0, n - 1))] = draw(g.sampled([0.0, 1.0, 0.25, 0.75, 2.0, -1.0]))
    return out


def common(draw, g, lo=3, hi=9):
    grid = draw(g.xy_grid(lo, hi, kinds=("laea",), square=True, desc=True))
    return {"grid": grid, "method": draw(g.sampled(["square", "square", "circular",
                                                    "weighted"])),
            "cells": draw(g.integers(1, 3)), "frac": draw(g.sampled([0.0, 0.0, 0.4, 0.99])),
            "sum_only": draw(g.integers(0, 3)) == 0, "times": draw(g.times())}


def gen():
    from vp import gens as g

    @g.composite
    def case(draw):
        cs = common(draw, g)
        lead = draw(g.sampled([[], [], [2], [3], [2, 2]]))
        shape = lead + [cs["grid"]["ny"], cs["grid"]["nx"]]
        cs.update(
            shape=shape, values=plateau(draw, g, shape), mask=draw(g.mask(shape)),
            mask_cube=draw(g.mask(shape[-2:])), re_mask=draw(g.booleans()),
            nan=draw(g.booleans()), meta=draw(g.integers(0, 3)) == 0,
            # radii interpolated between lead times around the forecast period
            lt=draw(g.sampled([None, None, "exact", "mid", "below", "above"])),
            halo=draw(g.integers(0, 2)))
        return cs

    return case()


def kernel_weight(method, r, dy, dx):
    d2 = dy * dy + dx * dx
    if method == "square":
        return 1.0
    if method == "circular":
        return 1.0 if d2 <= r * r else 0.0
    return max(0.0, (r * r - d2) / float(r * r))


def nbhood(data, valid, r, method, sum_only):
    """Reference: direct sum.  Returns values (NaN where there is nothing to average)."""
    ny, nx = data.shape
    out = np.full((ny, nx), np.nan, dtype=data.dtype)
    data = np.where(valid, data, 0)
    for j in range(ny):
        for i in range(nx):
            s = 0.0
            w = 0.0
            for dy in range(-r, r + 1):
                for dx in range(-r, r + 1):
                    k = kernel_weight(method, r, dy, dx)
                    if k == 0.0:
                        continue
                    b, a = j + dy, i + dx
                    if method == "square":
                        if not (0 <= b < ny and 0 <= a < nx):
                            continue
                    else:
                        b, a = min(max(b, 0), ny - 1), min(max(a, 0), nx - 1)
                    if valid[b, a]:
                        s = s + k * data[b, a]
                        w += k
            if sum_only:
                out[j, i] = s
            elif w > 0:
                out[j, i] = s / w
    return out


def radius_args(case):
    """(radii argument, lead times, effective radius in cells)"""
    dx = case["grid"]["dx"]
    radius = (case["cells"] + case["frac"]) * dx
    if case["lt"] is None:
        return radius, None, case["cells"], radius
    h = case["times"]["fp"] // 3600
    lt = case["lt"]
    if lt == "exact":
        return [float(dx), radius, 2.0 * dx], [h - 3, h, h + 5], case["cells"], radius
    if lt == "mid":
        return [radius - 0.5 * dx, radius + 0.5 * dx], [h - 2, h + 2], case["cells"], radius
    if lt == "below":
        return [radius, 4.0 * dx], [h + 2, h + 4], case["cells"], radius
    return [4.0 * dx, radius], [h - 4, h - 1], case["cells"], radius


def check_radius_scope(case, radius):
    grid = case["grid"]
    half = 0.5 * np.hypot((grid["ny"] - 1) * grid["dy"], (grid["nx"] - 1) * grid["dx"])
    return radius <= half, half


def run(case):
    from improver.nbhood.nbhood import MetaNeighbourhood, NeighbourhoodProcessing
    from vp import cubes as c

    grid = case["grid"]
    data = c.array(case)
    if case["mask"] is not None and case["nan"]:
        data.data[data.mask] = np.nan
    lead = []
    if len(case["shape"]) >= 3:
        lead.append(c.realization_coord(range(case["shape"][0])))
    if len(case["shape"]) == 4:
        lead.append(c.threshold_coord([1.0, 2.0], "rainfall_rate", "m s-1"))
    cube = c.new_cube(data, "probability_of_rainfall_rate_above_threshold", "1",
                      lead + c.yx_coords(grid), c.time_coords(case["times"]))
    radii, lts, cells, radius = radius_args(case)
    square = "square" if case["method"] == "square" else "circular"
    weighted = case["method"] == "weighted"
    mc = None
    if case["mask_cube"] is not None:
        mc = c.new_cube(1 - np.array(case["mask_cube"], np.int8).reshape(case["shape"][-2:]),
                        "land_binary_mask", "1", c.yx_coords(grid))
    ok, half = check_radius_scope(case, radius)
    if abs(radius - half) < 1:
        o.reject("radius at the domain limit")
    meta = case["meta"]
    if meta:
        def call(cb):
            halo = None
            return MetaNeighbourhood(
                "probabilities", radii if lts else [radii], lead_times=lts,
                neighbourhood_shape=square, weighted_mode=weighted,
                area_sum=case["sum_only"], halo_radius=halo)(cb, mc)
        re_mask = True
    else:
        re_mask = case["re_mask"]
        kw = {k: v for k, v, usual in [("lead_times", lts, None), ("weighted_mode", weighted, False),
                                       ("sum_only", case["sum_only"], False), ("re_mask", re_mask, True)]
              if v is not usual or case["halo"]}
        plugin = NeighbourhoodProcessing(square, radii, **kw)
        o.raises(ValueError, NeighbourhoodProcessing, "square", radii, weighted_mode=True)

        def call(cb):
            return plugin(cb, mask_cube=mc)
    if not ok:
        o.raises(ValueError, call, cube)
        o.label("radius too large")
        return False
    if case["halo"] == 2:
        odd = cube.copy()
        xc = odd.coord(axis="x")
        xc.bounds = None
        xc.points = xc.points * np.float32(0.75)
        o.raises(ValueError, call, odd)
    d, m = o.plain(cube.data)
    d = np.where(m, 0.0, d.astype(np.float64))
    valid2 = np.ones(case["shape"][-2:], bool) if mc is None else mc.data.astype(bool)
    valid = ~m & valid2
    if not valid.any(axis=(-2, -1)).all() and not case["sum_only"]:
        o.reject("slice without any valid point")
    result = call(cube)
    result.transpose(o.dim_order(result, cube))
    o.equal(result.shape, cube.shape, "shape")
    o.equal(str(result.dtype), "float32", "dtype")
    changed = False
    for idx in np.ndindex(*d.shape[:-2]):
        want = nbhood(d[idx], valid[idx], cells, case["method"], case["sum_only"])
        got = result.data[idx]
        what = "neighbourhood %s slice %s" % ("sum" if case["sum_only"] else "mean", idx)
        if re_mask:
            # sums of points outside the valid area are masked as well
            o.close_masked(got, np.nan_to_num(want), ~valid[idx], what, rtol=1e-6, atol=1e-6)
        else:
            o.close(np.ma.getdata(got), want, what, rtol=1e-6, atol=1e-6)
            o.check(not np.ma.is_masked(got), "masked output with re_mask=False")
        changed = changed or (np.nan_to_num(want)[valid[idx]] != d[idx][valid[idx]]).any()
    o.label(case["method"], "sum" if case["sum_only"] else "mean",
            "masked" if m.any() else "no mask", "mask cube" if mc is not None else
            "no mask cube", "lead times" if lts else "one radius")
    return changed


def gen_mask():
    from vp import gens as g

    @g.composite
    def case(draw):
        cs = common(draw, g, 3, 7)
        yx = [cs["grid"]["ny"], cs["grid"]["nx"]]
        nb = draw(g.integers(2, 3))
        nr = draw(g.sampled([0, 0, 2, 3]))
        shape = ([nr] if nr else []) + yx
        n = yx[0] * yx[1]
        vals = plateau(draw, g, shape)
        if nr and draw(g.booleans()):
            vals = vals[:n] + vals[:n] + vals[2 * n:]
        cs.update(nb=nb, nr=nr, shape=shape, values=vals, lt=None, mask=draw(g.sampled(
            [None, None, "land"])), band=draw(g.fixed(n, g.integers(-1, nb - 1))),
            weights=[draw(g.fixed(nb, g.grid_ints(0, 4, 1))) for _ in range(n)],
            collapse=draw(g.booleans()), lead=draw(g.sampled(["realization", "time"])),
            grow=draw(g.sampled([None, None, 0.5, 1.0])), differ=draw(g.integers(0, 4)) == 0)
        return cs

    return case()


def run_mask(case):
    from improver.nbhood.use_nbhood import ApplyNeighbourhoodProcessingWithAMask
    from iris.coords import DimCoord
    from vp import cubes as c

    grid, nb = case["grid"], case["nb"]
    yx = (grid["ny"], grid["nx"])
    band = np.array(case["band"]).reshape(yx)
    radii, lts, cells, radius = radius_args(case)
    times = case["nr"] and case["lead"] == "time"
    cells = [cells] * max(case["nr"], 1)
    if case["grow"] and (times or not case["nr"]):
        # radii that grow with lead time, on every hour or every other hour
        h = case["times"]["fp"] // 3600
        lts = [h - 1, h, h + 1, h + 2] if case["grow"] == 1 else [h - 2, h, h + 2, h + 4]
        step = grid["dx"] * (1 if case["grow"] == 1 else 2)
        radii = [(case["cells"] + case["frac"]) * grid["dx"] + step * i for i in range(-1, 3)]
        cells = [cells[0] + i for i in range(max(case["nr"], 1))]
        radius += grid["dx"] * (len(cells) - 1)
    ok, half = check_radius_scope(case, radius)
    if not ok or abs(radius - half) < 1:
        o.reject("radius")
    masks = np.stack([band == k for k in range(nb)])
    if not masks.any(axis=(1, 2)).all():
        o.reject("empty band")
    data = np.array(case["values"], np.float32).reshape(case["shape"])
    m = np.zeros(yx, bool)
    ms = [m] * max(case["nr"], 1)
    if case["mask"] == "land":
        m = band == -1
        ms = [m | (case["differ"] and band == k % nb) for k in range(max(case["nr"], 1))]
        data = np.ma.masked_array(data, np.stack(ms).reshape(data.shape))
    name = "probability_of_rainfall_rate_above_threshold"
    if times:
        lay = {"lead": "time", "k": case["nr"], "spot": False, "grid": grid, "dims": ["time", "y", "x"],
               "inner": case["shape"], "times": case["times"]}
        cube = c.layout_cube(lay, data, name, "1")
        if case["times"]["period"]:
            for x in ("time", "forecast_period"):
                pts = cube.coord(x).points
                cube.coord(x).bounds = np.stack([pts - case["times"]["period"], pts], -1).astype(pts.dtype)
    else:
        lead = [c.realization_coord(range(case["nr"]))] if case["nr"] else []
        cube = c.new_cube(data, name, "1", lead + c.yx_coords(grid), c.time_coords(case["times"]))
    topo = DimCoord(np.array([50.0 + 100 * k for k in range(nb)], np.float32),
                    long_name="topographic_zone", units="m",
                    bounds=np.array([[100.0 * k, 100.0 * (k + 1)] for k in range(nb)],
                                    np.float32))
    mask_cube = c.new_cube(masks.astype(np.int32), "topography_mask", "1",
                           [topo] + c.yx_coords(grid))
    weights = None
    if case["collapse"]:
        w = np.array(case["weights"], np.float64).T.reshape((nb,) + yx)
        w[0][w.sum(axis=0) == 0] = 1
        w = (w / w.sum(axis=0)).astype(np.float32)
        weights = c.new_cube(w, "topographic_zone_weights", "1",
                             [topo.copy()] + c.yx_coords(grid))
    square = "square" if case["method"] == "square" else "circular"
    kw = {"weighted_mode": True} if case["method"] == "weighted" else {}
    if case["sum_only"]:
        kw["sum_only"] = True
    if lts:
        kw["lead_times"] = lts
    before = [o.snapshot(x) for x in (cube, mask_cube)]
    result = ApplyNeighbourhoodProcessingWithAMask(
        "topographic_zone", square, radii, collapse_weights=weights, **kw)(cube, mask_cube)
    for x, y in zip(before, (cube, mask_cube)):
        o.unchanged(x, y)
    for x in cube.coords():
        o.same_coord(result.coord(x.name()), x)
    d = np.asarray(np.ma.getdata(data)).astype(np.float64)
    d = d if case["nr"] else d[None]
    want = np.stack([np.stack([nbhood(sl, masks[k] & ~ms[i], cells[i], case["method"], case["sum_only"])
                               for k in range(nb)]) for i, sl in enumerate(d)])
    got = result.data
    if not case["nr"]:
        got = got[None]
    if weights is None:
        if result.coord_dims("topographic_zone") != ((1,) if case["nr"] else (0,)):
            raise o.Violation("zone dimension in position %s" % (
                result.coord_dims("topographic_zone"),))
        o.close(np.ma.getdata(got), want, "per-zone neighbourhood mean", rtol=1e-6,
                atol=1e-6)
    else:
        w = np.broadcast_to(weights.data.astype(np.float64), want.shape)
        valid = ~np.isnan(want)
        ws = np.where(valid, w, 0).sum(axis=1)
        tot = np.where(valid, w * np.nan_to_num(want), 0).sum(axis=1)
        with np.errstate(all="ignore"):
            ex = np.where(ws > 0, tot / ws, np.nan)
        o.equal(result.shape, cube.shape, "shape")
        o.close(np.ma.filled(got, np.nan), ex, "weighted mean over zones", rtol=1e-5,
                atol=1e-5)
        o.check(not result.coords("topographic_zone"), "zone coordinate kept")
    o.label("collapse" if weights is not None else "zones", case["method"],
            "masked" if m.any() else "no mask")
    return True


def gen_dir():
    from vp import gens as g

    @g.composite
    def case(draw):
        cs = common(draw, g, 3, 7)
        shape = [cs["grid"]["ny"], cs["grid"]["nx"]]
        cs.update(shape=shape, values=draw(g.field(shape, draw(g.sampled([
            g.grid_ints(0, 359, 1), g.sampled([0.0, 10.0, 350.0, 359.0, 1.0, 90.0]),
            g.sampled([170.0, 190.0, 180.0])])))), mask=None, lt=None)
        return cs

    return case()


def run_dir(case):
    from improver.nbhood.nbhood import MetaNeighbourhood
    from vp import cubes as c

    radius = case["cells"] * case["grid"]["dx"]
    ok, half = check_radius_scope(case, radius)
    if not ok or abs(radius - half) < 1:
        o.reject("radius")
    data = c.array(case)
    cube = c.new_cube(data, "wind_from_direction", "degrees", c.yx_coords(case["grid"]),
                      c.time_coords(case["times"]))
    z = np.exp(1j * np.deg2rad(data.astype(np.float64)))
    zm = nbhood(z, np.ones(z.shape, bool), case["cells"], "square", False)
    result = MetaNeighbourhood("probabilities", [radius], degrees_as_complex=True)(cube)
    want = np.angle(zm, deg=True) % 360
    diff = np.abs(result.data.astype(np.float64) - want) % 360
    diff = np.minimum(diff, 360 - diff)
    sure = np.abs(zm) > 1e-3
    o.check((diff[sure] < 0.02).all(), "mean direction %s, expected %s", o.show(result.data),
            o.show(want))
    o.check(((result.data >= 0) & (result.data < 360)).all(), "direction outside [0, 360)")
    return bool((np.abs(data - want) > 0.1).any())


SUBS = {"mean": Sub(gen, run, 6), "zones": Sub(gen_mask, run_mask, 2),
        "direction": Sub(gen_dir, run_dir, 1)}
