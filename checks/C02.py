"""C02: maximum in vicinity."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: gridded cubes with leading dimensions in any order, masks, land masks, one or "
        "more radii (any order; metres or grid points), fields with ties/negatives; "
        "non-trivial when some point's expected maximum differs from its own value")
QUICK = 4500
THOROUGH = 60000


def gen():
    from vp import gens as g

    @g.composite
    def case(draw):
        native = draw(g.booleans())
        kinds = ("laea", "latlon") if native else ("laea",)
        grid = draw(g.xy_grid(1 if native else 2, 7, kinds=kinds, square=True))
        lead = draw(g.sampled([[], [], ["r"], ["t"], ["r", "t"], ["thr"], ["r", "thr"],
                               ["thr", "r"]]))
        sizes = [draw(g.integers(1, 3)) for _ in lead]
        shape = sizes + [grid["ny"], grid["nx"]]
        return {
            "native": native, "grid": grid, "lead": lead, "sizes": sizes, "shape": shape,
            "values": draw(g.field(shape, draw(g.sampled([
                g.grid_ints(0, 1, 1), g.grid_ints(0, 1, 0.125), g.grid_ints(-9, 9, 0.5)])))),
            "mask": draw(g.mask(shape)),
            "land": draw(g.mask([grid["ny"], grid["nx"]])),
            "radii": draw(g.lists(g.integers(0 if native else 1, 4), min_size=1, max_size=3,
                                  unique=True)),
            "frac": draw(g.sampled([0.0, 0.0, 0.3, 0.95])),
            "neg": draw(g.integers(0, 15)) == 0,
            "times": draw(g.times()),
        }

    return case()


def brute(data, mask, radius, land):
    ny, nx = data.shape
    out = data.astype(np.float64).copy()
    for j in range(ny):
        for i in range(nx):
            if mask[j, i]:
                continue
            best = -np.inf
            for b in range(max(0, j - radius), min(ny, j + radius + 1)):
                for a in range(max(0, i - radius), min(nx, i + radius + 1)):
                    if mask[b, a] or (land is not None and land[b, a] != land[j, i]):
                        continue
                    best = max(best, data[b, a])
            out[j, i] = best
    return out


def lead_coords(case):
    from iris.coords import DimCoord
    from vp import cubes as c

    out = []
    for kind, n in zip(case["lead"], case["sizes"]):
        if kind == "r":
            out.append(c.realization_coord(range(n)))
        elif kind == "thr":
            out.append(c.threshold_coord([1.0 + k for k in range(n)], "rainfall_rate",
                                         "m s-1"))
        else:
            t0 = case["times"]["frt"] + case["times"]["fp"]
            out.append(DimCoord(np.array([t0 + 3600 * k for k in range(n)], np.int64),
                                standard_name="time", units=c.TIME_UNIT))
    return out


def land_cube(case):
    from vp import cubes as c

    if case["land"] is None:
        return None, None
    grid = case["grid"]
    land = np.array(case["land"], dtype=bool).reshape(grid["ny"], grid["nx"])
    return land, c.new_cube(land.astype(np.int8), "land_binary_mask", "1",
                            c.yx_coords(grid))


def run(case):
    from improver.utilities.spatial import OccurrenceWithinVicinity
    from vp import cubes as c

    grid = case["grid"]
    prob = "thr" in case["lead"]
    name = "probability_of_rainfall_rate_above_threshold" if prob else "rainfall_rate"
    data = c.array(case)
    scal = c.time_coords(case["times"])
    if "t" in case["lead"]:
        scal = scal[1:2]
    cube = c.new_cube(data, name, "1" if prob else "m s-1",
                      lead_coords(case) + c.yx_coords(grid), scal)
    land, lcube = land_cube(case)
    radii = case["radii"]
    if case["native"]:
        if radii == [0] and False:
            o.reject()
        kwargs = {"grid_point_radii": radii}
        labels = [float(r) for r in radii]
    else:
        labels = [(r + case["frac"]) * grid["dx"] for r in radii]
        kwargs = {"radii": labels}
    if case["neg"]:
        key = list(kwargs)[0]
        kwargs[key] = kwargs[key] + [-1]
        o.raises(ValueError, OccurrenceWithinVicinity, **kwargs)
        o.label("negative radius")
        return False
    before = o.snapshot(cube)
    result = OccurrenceWithinVicinity(land_mask_cube=lcube, **kwargs)(cube)
    o.unchanged(before, cube)
    if prob:
        o.equal(result.name(), "probability_of_rainfall_rate_in_vicinity_above_threshold",
                "name")
    else:
        o.equal(result.name(), "rainfall_rate_in_vicinity", "name")
    vic = result.coord("radius_of_vicinity")
    o.equal(str(vic.units), "1" if case["native"] else "m", "vicinity units")
    o.equal(sorted(float(v) for v in vic.points), sorted(float(np.float32(v))
                                                        for v in labels), "radii")
    d, m = o.plain(data)
    vdim = result.coord_dims(vic)
    moved = False
    # leading dimensions keep their order
    names = [x.name() for x in result.coords(dim_coords=True) if x.name() !=
             "radius_of_vicinity"]
    o.equal(names, [x.name() for x in cube.coords(dim_coords=True)], "dimension order")
    for k, point in enumerate(vic.points):
        r = radii[[float(np.float32(v)) for v in labels].index(float(point))]
        want = np.empty(d.shape)
        for idx in np.ndindex(*d.shape[:-2]):
            want[idx] = brute(d[idx], m[idx], r, land)
        got = result.data[tuple(k if ax in vdim else slice(None)
                                for ax in range(result.ndim))]
        if not vdim:
            got = result.data
        o.close_masked(got, want, m, "vicinity maximum, radius %s" % point, rtol=0, atol=0)
        moved = moved or (want[~m] != d[~m]).any()
    o.label("native" if case["native"] else "metres", "land" if land is not None else
            "no-land", "masked" if m.any() else "unmasked", "nrad%d" % len(radii))
    return moved


def gen_thr():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(2, 6, kinds=("laea",), square=True))
        n = draw(g.integers(0, 4))
        shape = ([n] if n else []) + [grid["ny"], grid["nx"]]
        return {
            "grid": grid, "n": n, "shape": shape,
            "values": draw(g.field(shape, g.grid_ints(-3, 3, 0.5))),
            "mask": draw(g.mask(shape)), "land": draw(g.mask([grid["ny"], grid["nx"]])),
            "radii": draw(g.lists(g.integers(1, 3), min_size=1, max_size=3, unique=True)),
            "frac": draw(g.sampled([0.0, 0.3])),
            "thresholds": draw(g.lists(g.grid_ints(-3, 3, 0.5), min_size=1, max_size=3,
                                       unique=True)),
            "width": draw(g.sampled([None, None, 1.0, 0.5])),
            "op": draw(g.sampled([">", ">=", "<", "<="])),
            "collapse": draw(g.booleans()), "times": draw(g.times()),
        }

    return case()


def run_thr(case):
    from improver.threshold import Threshold
    from vp import cubes as c

    grid, n = case["grid"], case["n"]
    data = c.array(case)
    lead = [c.realization_coord(range(n))] if n else []
    cube = c.new_cube(data, "rainfall_rate", "m s-1", lead + c.yx_coords(grid),
                      c.time_coords(case["times"]))
    land, lcube = land_cube(case)
    labels = [(r + case["frac"]) * grid["dx"] for r in case["radii"]]
    kwargs = {"vicinity": labels, "comparison_operator": case["op"]}
    thrs = case["thresholds"]
    if case["width"]:
        w = case["width"]
        kwargs["threshold_config"] = {repr(t): [t - w, t + w] for t in thrs}
    else:
        kwargs["threshold_values"] = thrs
    coll = bool(case["collapse"] and n)
    if coll:
        kwargs["collapse_coord"] = "realization"
    d, m = o.plain(data)
    d = d.astype(np.float64)
    result = Threshold(**kwargs)(cube, lcube) if lcube is not None else Threshold(
        **kwargs)(cube)
    tc = result.coord(var_name="threshold")
    vc = result.coord("radius_of_vicinity")
    o.equal(sorted(float(t) for t in tc.points), sorted(thrs), "thresholds")
    o.equal(sorted(float(t) for t in vc.points),
            sorted(float(np.float32(v)) for v in labels), "radii")
    o.equal(result.name(), "probability_of_rainfall_rate_in_vicinity_%s_threshold" % (
        "above" if ">" in case["op"] else "below"), "name")
    td, vd = result.coord_dims(tc), result.coord_dims(vc)
    hit = False
    for ti, t in enumerate(tc.points):
        t = float(t)
        if case["width"]:
            p = np.clip(0.5 + 0.5 * (d - t) / case["width"], 0, 1)
            if "<" in case["op"]:
                p = 1 - p
        else:
            p = {">": np.greater, ">=": np.greater_equal, "<": np.less,
                 "<=": np.less_equal}[case["op"]](d, t).astype(float)
        for vi, v in enumerate(vc.points):
            r = case["radii"][[float(np.float32(x)) for x in labels].index(float(v))]
            want = np.empty(d.shape)
            for idx in np.ndindex(*d.shape[:-2]):
                want[idx] = brute(p[idx], m[idx], r, land)
            wm = m
            hit = hit or (want != p)[~m].any()
            if coll:
                cnt = (~m).sum(axis=0)
                want = np.where(m, 0, want).sum(axis=0) / np.maximum(cnt, 1)
                wm = cnt == 0
            got = result.data[tuple(
                ti if ax in td else vi if ax in vd else slice(None)
                for ax in range(result.ndim))]
            o.close_masked(np.squeeze(got), np.squeeze(want), np.squeeze(wm),
                           "threshold %s radius %s" % (t, v), rtol=1e-5, atol=1e-5)
    o.label("fuzzy" if case["width"] else "hard", "masked" if m.any() else "unmasked",
            "collapse" if coll else "no collapse", "land" if land is not None else "no land")
    return hit


SUBS = {"occurrence": Sub(gen, run, 1), "threshold": Sub(gen_thr, run_thr, 1)}
