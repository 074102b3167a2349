"""C34: combining cubes by arithmetic, over times, realizations and thresholds."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: two to four cubes of any layout, masks, types, times and periods under every "
        "operation, thresholds and realizations broadcast, incomplete ensembles, windows of period "
        "diagnostics, plugins called again, and cubes that do not belong together; non-trivial when "
        "the result differs from the first cube")
QUICK = 1600
THOROUGH = 40000
OPS = ["+", "add", "-", "subtract", "*", "multiply", "max", "min", "mean", "masked_add"]


def dims(cube):
    return [x.name() for x in cube.coords(dim_coords=True)]


def reference(op, arrays, masks):
    """Values and mask of the combination, one array after another."""
    stack = np.stack([np.asarray(a, float) for a in arrays])
    m = np.stack(masks)
    if op == "masked_add":
        return np.where(m, 0, stack).sum(axis=0), m.all(axis=0)
    if op in ("+", "add"):
        v = stack.sum(axis=0)
    elif op in ("-", "subtract"):
        v = stack[0] - stack[1:].sum(axis=0)
    elif op in ("*", "multiply"):
        v = stack.prod(axis=0)
    else:
        v = {"max": np.max, "min": np.min, "mean": np.mean}[op](stack, axis=0)
    return v, m.any(axis=0)


def judge(res, lay, want, mask, lead=None):
    from vp import cubes as c

    got = c.aligned(res, lay, lead)
    o.equal(np.ma.getmaskarray(got).reshape(mask.shape), mask, "masked points")
    got = np.ma.filled(np.ma.asarray(got), 0).reshape(want.shape).astype(float)
    o.close(np.where(mask, 0, got), np.where(mask, 0, want), "combined values", rtol=1e-4, atol=1e-4)


# ---------------------------------------------------------------- arithmetic
def gen_combine():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization", "realization")))
        n = draw(g.integers(2, 4))
        size = g.size(lay["inner"])
        op = draw(g.sampled(OPS + ["masked_add"]))
        masked = draw(g.booleans()) or op == "masked_add"
        some = g.sampled([True, True, True, False]) if op == "masked_add" else g.booleans()
        return {"lay": lay, "n": n, "op": op,
                "v": [draw(g.fixed(size, g.integers(-6, 6))) for _ in range(n)],
                "mask": [draw(g.fixed(size, g.sampled([0, 0, 1]))) if masked and draw(some) else None
                         for _ in range(n)],
                "types": draw(g.sampled([None, None, None, "i1", "i4", "all i1"])),
                "fps": [draw(g.integers(0, 6)) for _ in range(n)],
                "frts": draw(g.sampled([None, None, None, 1])) and [draw(g.integers(0, 2)) for _ in range(n)],
                "period": draw(g.sampled([None, 1, 3, "mixed"])),
                "heights": draw(g.one_of(g.just(None), g.fixed(n, g.sampled([2, 2, 10])))),
                "name": draw(g.sampled([None, None, "air_temperature", "new_name"])),
                "cm": draw(g.sampled([None, None, None, "time", "realization"])),
                "expand": draw(g.sampled([True, True, True, False])), "old": draw(g.booleans()),
                "calls": draw(g.integers(1, 2)), "plugin": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 14 + ["grid", "one", "operation", "dims"]))}

    return case()


def build(case, name="wind_speed"):
    from iris.coords import CellMethod, DimCoord
    from vp import cubes as c

    lay = case["lay"]
    res = []
    for i in range(case["n"]):
        per = {"mixed": 3600 if i % 2 else None, None: None}.get(case["period"], 0)
        if per == 0:
            per = 3600 * case["period"]
        frt = lay["times"]["frt"] + 3600 * (case["frts"][i] if case["frts"] else 0)
        t = {"frt": frt, "fp": 3600 * (case["fps"][i] + 3), "period": per}
        a = np.array(case["v"][i], float).reshape(lay["inner"])
        dtype = {None: "f4", "i1": "i1" if i == 1 else "f4", "i4": "i4" if i == 1 else "f4",
                 "all i1": "i1"}[case["types"]]
        if case["types"] == "all i1":
            a = np.clip(a, -3, 3)  # (products that fit)
        a = a.astype(dtype)
        if case["mask"][i] is not None:
            a = np.ma.MaskedArray(a, np.array(case["mask"][i], bool).reshape(lay["inner"]))
        attrs = dict(c.ATTRS, mosg__model_configuration="model%d" % i)
        cube = c.layout_cube(dict(lay, times=t), a, name if i == 0 else "other_%d" % i, "m s-1",
                             attributes=attrs)
        if case["heights"]:
            cube.add_aux_coord(DimCoord(np.float32(case["heights"][i]), "height", units="m"))
        if case["old"]:
            cube.add_cell_method(CellMethod("sum", coords="time", comments="of %s" % cube.name()))
            cube.add_cell_method(CellMethod("point", coords="latitude"))
        res.append(cube)
    return res


def expanded(cubes, name):
    """Bounds and point of a coordinate that covers all the cubes."""
    cs = [x.coord(name) for x in cubes]
    with_b = [x.has_bounds() for x in cs]
    vals = [x.bounds if b else x.points for x, b in zip(cs, with_b)]
    return np.min(vals), np.max(vals)


def check_coords(res, cubes, expand):
    first = cubes[0]
    for x in first.coords(dim_coords=True):
        o.same_coord(res.coord(x.name()), x)
    for x in first.coords(dim_coords=False):
        y = res.coord(x.name())
        shared = all(q.coords(x.name()) for q in cubes)
        if expand and shared and any(q.coord(x.name()) != x for q in cubes[1:]):
            lo, hi = expanded(cubes, x.name())
            o.equal((y.points.tolist(), y.bounds.tolist(), str(y.units)), ([hi], [[lo, hi]], str(x.units)),
                    "%s expanded" % x.name())
            o.equal((y.points.dtype, y.bounds.dtype), (x.points.dtype, x.points.dtype), "types of " + x.name())
        else:
            o.same_coord(y, x)
    o.equal(sorted(x.name() for x in res.coords()), sorted(x.name() for x in first.coords()), "coordinates")


def mixed(cubes):
    """Whether a coordinate to be expanded has bounds on some of the cubes only."""
    for x in cubes[0].coords(dim_coords=False):
        if all(q.coords(x.name()) for q in cubes):
            cs = [q.coord(x.name()) for q in cubes]
            if any(q != x for q in cs[1:]) and len({q.has_bounds() for q in cs}) > 1:
                return True
    return False


def run_combine(case):
    from improver.cube_combiner import Combine, CubeCombiner
    from iris.coords import CellMethod
    from vp import cubes as c

    lay, op, bad = case["lay"], case["op"], case["bad"]
    mult = op in ("*", "multiply")
    kw = {"cell_method_coordinate": case["cm"], "expand_bound": case["expand"]}
    if bad == "operation":
        o.raises(ValueError, Combine, "divide")
        return True
    plugin = Combine(op, new_name=case["name"], **kw)
    if case["calls"] == 2:
        # an earlier call with something else leaves no trace
        try:
            plugin(*[x for x in build(dict(case, bad=None), name="visibility_in_air")])
        except (TypeError, ValueError):
            pass
    cubes = build(case)
    if bad == "one":
        o.raises(ValueError, plugin, cubes[0])
        return True
    if bad == "grid":
        if lay["spot"]:
            o.reject("sites")
        sub = dict(lay, grid=dict(lay["grid"], y0=lay["grid"]["y0"] + 1))
        cubes[1] = build(dict(case, lay=sub))[1]
        o.raises(ValueError, plugin, *cubes)
        return True
    if bad == "dims":
        if len(dims(cubes[0])) < 2 or lay["spot"] or cubes[1].shape[0] == 1:
            o.reject("too few dimensions")
        cubes[1].transpose()
        o.raises(ValueError, plugin, *cubes)
        return True
    expand = case["expand"] and not mult
    if case["types"] == "i4" or (case["types"] == "all i1" and op == "mean"):
        o.raises(TypeError, plugin, *cubes)
        return True
    if (expand and mixed(cubes)) or (case["cm"] and not mult and op not in ("max", "min", "mean")):
        o.raises(ValueError, plugin, *cubes)
        return True
    before = [o.snapshot(x) for x in cubes]
    if case["plugin"]:
        res = plugin(*cubes)
    else:
        res = CubeCombiner(op, **kw)(cubes, case["name"] or "wind_speed")
    for x, y in zip(before, cubes):
        o.unchanged(x, y)
    masks = [np.ma.getmaskarray(np.ma.asarray(c.aligned(x, lay))) for x in cubes]
    want, mask = reference(op, [np.ma.getdata(c.aligned(x, lay)) for x in cubes], masks)
    judge(res, lay, want, mask)
    name = case["name"] or "wind_speed"
    o.equal((res.name(), str(res.units)), (name, "m s-1"), "result")
    o.equal(res.dtype, np.dtype("i1" if case["types"] == "all i1" else "f4"), "type")
    o.equal(dict(res.attributes), dict(cubes[0].attributes), "attributes")
    # (a single realization becomes a scalar coordinate)
    o.equal([x for x in dims(res) if x != "realization" or lay["k"] > 1],
            [x for x in dims(cubes[0]) if x != "realization" or lay["k"] > 1], "dimensions")
    check_coords(res, cubes, expand)
    cms = list(cubes[0].cell_methods)
    if mult and cms:
        cms = [CellMethod("sum", coords="time", comments="of %s" % name), cms[1]]
    elif case["cm"] and not mult:
        cms.append(CellMethod({"max": "maximum", "min": "minimum", "mean": "mean"}[op], coords=case["cm"]))
    o.equal([str(x) for x in res.cell_methods], [str(x) for x in cms], "cell methods")
    o.label(op, lay["lead"], "masked" if mask.any() else "full", "calls%d" % case["calls"])
    return bool(np.any(want != np.ma.getdata(c.aligned(cubes[0], lay))))


# ---------------------------------------------------------------- broadcasting
def gen_broadcast():
    from vp import gens as g

    @g.composite
    def case(draw):
        what = draw(g.sampled(["threshold", "threshold", "realization", "name"]))
        lay = draw(g.layout(0, leads=("none",) if what == "realization" else ("none", "realization")))
        k = draw(g.integers(1, 4))
        n = draw(g.integers(1, 2))
        size = g.size(lay["inner"])
        return {"lay": lay, "what": what, "k": k, "n": n, "op": draw(g.sampled(["*", "*", "+", "-", "max", "min"])),
                "a": draw(g.fixed(k * size, g.integers(0, 10))),
                "b": [draw(g.fixed(size, g.integers(0, 10))) for _ in range(n)], "full": draw(g.booleans()),
                "pos": draw(g.integers(0, 1)), "name": draw(g.sampled([None, "new_name", "new_in_vicinity"])),
                "calls": draw(g.integers(1, 2)),
                "bad": draw(g.sampled([None] * 10 + ["missing", "scalar", "none", "points"]))}

    return case()


def run_broadcast(case):
    from improver.cube_combiner import Combine
    from vp import cubes as c

    lay, k, bad, what = case["lay"], case["k"], case["bad"], case["what"]

    def make(var, thr):
        main = (c.realization_coord(range(k)) if what == "realization"
                else c.threshold_coord(np.arange(k) + thr, var, "m s-1"))
        sub = dict(lay)
        space = ["site"] if lay["spot"] else ["y", "x"]
        lead = [lay["lead"]] if lay["k"] else []
        sub["dims"] = (["main"] + lead if case["pos"] == 0 else lead + ["main"]) + space
        a = np.array(case["a"], float).reshape([k] + lay["inner"]) / 10
        name = var if what == "realization" else "probability_of_%s_above_threshold" % var
        first = c.layout_cube(sub, a.astype(np.float32), name, "1", main)
        rest = []
        for i, b in enumerate(case["b"]):
            v = np.array(b, float).reshape(lay["inner"]) / 10
            s2 = dict(lay, dims=lead + space)
            rest.append(c.layout_cube(s2, v.astype(np.float32), "fraction_%d" % i, "1"))
        if case["full"]:
            rest.append(first.copy(data=first.data[..., ::-1].copy()))
        return [first] + rest, a

    crd = {"threshold": "threshold", "realization": "realization", "name": "wind_speed"}[what]
    plugin = Combine(case["op"], broadcast=crd, new_name=case["name"])
    if case["calls"] == 2:
        early, _ = make("wind_speed" if what == "name" else "visibility_in_air", 5)
        plugin(*early)
    cubes, a = make("wind_speed", 1)
    main = cubes[0].coord("realization" if what == "realization" else "wind_speed")
    if bad in ("missing", "none"):
        if bad == "none":
            plugin = Combine(case["op"], broadcast="kittens")
            o.raises(Exception, plugin, *cubes)
        else:
            o.raises(Exception, plugin, *(cubes[1:2] + cubes[:1]))
        return True
    if bad == "scalar":
        cubes[1].add_aux_coord(main.copy(main.points[:1]))
        o.raises(TypeError, plugin, *cubes)
        return True
    if bad == "points":
        if not case["full"] or k < 2:
            o.reject("no such cube")
        other = cubes[-1]
        pts = other.coord(main.name()).points + 1
        other.coord(main.name()).points = pts
        o.raises(ValueError, plugin, *cubes)
        return True
    before = [o.snapshot(x) for x in cubes]
    res = plugin(*cubes)
    for x, y in zip(before, cubes):
        o.unchanged(x, y)
    arrays = [a]
    for x in case["b"]:
        arrays.append(np.broadcast_to(np.array(x, float).reshape(lay["inner"]) / 10, a.shape))
    if case["full"]:
        arrays.append(a[..., ::-1])
    mult = case["op"] == "*"
    want, mask = reference(case["op"], arrays, [np.zeros(a.shape, bool)] * len(arrays))
    new = case["name"]
    if what == "realization" or not new:
        name, coord = new or cubes[0].name(), main.name()
    elif mult:
        name, coord = "probability_of_%s_above_threshold" % new, new.replace("_in_vicinity", "")
    else:
        name, coord = new, main.name()
    o.equal(res.name(), name, "name")
    o.equal([(x.name(), x.var_name) for x in res.coords(var_name="threshold")],
            [] if what == "realization" else [(coord, "threshold")], "threshold coordinate")
    judge(res, lay, want, mask, coord)
    want_d = [coord if x == main.name() else x for x in dims(cubes[0])]
    keep = lambda d: [x for x in d if x != "realization" or (lay["k"] if what != "realization" else k) > 1]
    o.equal(keep(dims(res)), keep(want_d), "dimensions")
    for x in cubes[0].coords():
        y = res.coord(coord if x.name() == main.name() else x.name())
        o.equal((y.points.tolist(), str(y.units)), (x.points.tolist(), str(x.units)), "coordinate " + x.name())
    o.label(what, "k%d" % k, case["op"])
    return bool(np.any(want != a))


# ---------------------------------------------------------------- incomplete ensembles
def gen_members():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none",)))
        nt = draw(g.integers(2, 4))
        sets = [draw(g.lists(g.integers(0, 5), min_size=1, max_size=5, unique=True)) for _ in range(nt)]
        if draw(g.booleans()):
            keep = draw(g.lists(g.integers(0, 5), min_size=2, max_size=3, unique=True))
            sets = [sorted(set(s) | set(keep)) for s in sets]
        size = g.size(lay["inner"])
        return {"lay": lay, "sets": [sorted(s) for s in sets],
                "v": [draw(g.fixed(6 * size, g.integers(0, 30))) for _ in range(nt)],
                "min": draw(g.sampled([1, 1, 2, "2", 3, 0, None])), "op": draw(g.sampled(["+", "max", "mean", "min"])),
                "split": draw(g.booleans()), "period": draw(g.booleans()), "order": draw(g.permutation(nt)),
                "prob": draw(g.booleans())}

    return case()


def run_members(case):
    from improver.cube_combiner import Combine
    from vp import cubes as c

    lay = case["lay"]
    s = lay["inner"]
    cubes, arrays = [], []
    for i, members in enumerate(case["sets"]):
        a = np.array(case["v"][i], float).reshape([6] + s)
        arrays.append(a)
        t = {"frt": lay["times"]["frt"], "fp": 3600 * (i + 1), "period": 3600 if case["period"] else None}
        sub = dict(lay, times=t, dims=["main"] + (["site"] if lay["spot"] else ["y", "x"]))
        cube = c.layout_cube(sub, a[members].astype(np.float32), "rainfall_rate", "mm h-1",
                             c.realization_coord(members))
        cubes += [cube[j] for j in range(len(members))] if case["split"] else [cube]
    if case["min"] is None:
        o.reject("no minimum")
    if not case["split"]:
        cubes = [cubes[i] for i in case["order"]]
    plugin = Combine(case["op"], minimum_realizations=case["min"])
    common = sorted(set.intersection(*[set(x) for x in case["sets"]]))
    if int(case["min"]) < 1:
        o.raises(ValueError, plugin, *cubes)
        return True
    if len(common) < int(case["min"]):
        o.raises(Exception if not common else ValueError, plugin, *cubes)
        return True
    before = [o.snapshot(x) for x in cubes]
    res = plugin(*cubes)
    for x, y in zip(before, cubes):
        o.unchanged(x, y)
    stack = [a[common] for a in arrays]
    want, mask = reference(case["op"], stack, [np.zeros(stack[0].shape, bool)] * len(stack))
    judge(res, lay, want, mask, "realization")
    o.equal(res.coord("realization").points.tolist(), common, "realizations")
    o.equal(res.name(), "rainfall_rate", "name")
    hi = lay["times"]["frt"] + 3600 * len(stack)
    lo = lay["times"]["frt"] + (0 if case["period"] else 3600)
    o.equal((res.coord("time").points.tolist(), res.coord("time").bounds.tolist()), ([hi], [[lo, hi]]), "time")
    return len(common) < max(len(x) for x in case["sets"])


# ---------------------------------------------------------------- windows
def gen_window():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(2, leads=("none", "realization")))
        n = draw(g.integers(2, 4))
        size = g.size(lay["inner"]) * 2
        return {"lay": lay, "n": n, "v": [draw(g.fixed(size, g.integers(0, 20))) for _ in range(n)],
                "period": draw(g.sampled([1, 3, 6])), "step": draw(g.sampled([1, 3])),
                "prob": draw(g.booleans()), "old": draw(g.sampled([None, "sum", "maximum", "mean"])),
                "min": draw(g.sampled([None, None, 1])), "order": draw(g.permutation(4)),
                "bad": draw(g.sampled([None] * 8 + ["nobounds", "some", "period"]))}

    return case()


def run_window(case):
    from improver.cube_combiner import MaxInTimeWindow
    from iris.coords import CellMethod
    from iris.cube import CubeList
    from vp import cubes as c

    lay, bad = case["lay"], case["bad"]
    cubes, arrays = [], []
    s = [2] + lay["inner"]
    var = "lwe_thickness_of_precipitation_amount"
    for i in range(case["n"]):
        per = 3600 * case["period"]
        if bad == "nobounds" or (bad == "some" and i == 1):
            per = None
        elif bad == "period" and i == 1:
            per *= 2
        t = {"frt": lay["times"]["frt"], "fp": 3600 * (12 + case["step"] * i), "period": per}
        a = np.array(case["v"][i], float).reshape(s) / 20
        arrays.append(a)
        main = c.threshold_coord([0.1, 1], var, "mm") if case["prob"] else c.percentile_coord([20, 80])
        cube = c.layout_cube(dict(lay, times=t), a.astype(np.float32),
                             "probability_of_%s_above_threshold" % var if case["prob"] else var,
                             "1" if case["prob"] else "mm", main)
        if case["old"]:
            cube.add_cell_method(CellMethod(case["old"], coords="time"))
        cubes.append(cube)
    cubes = [cubes[i] for i in case["order"] if i < case["n"]]
    low = case["min"] if lay["k"] and lay["lead"] == "realization" else None
    plugin = MaxInTimeWindow(minimum_realizations=low)
    if bad:
        o.raises(ValueError, plugin, CubeList(cubes))
        return True
    before = [o.snapshot(x) for x in cubes]
    res = plugin(CubeList(cubes))
    for x, y in zip(before, cubes):
        o.unchanged(x, y)
    want = np.max(arrays, axis=0)
    judge(res, lay, want, np.zeros(want.shape, bool), var if case["prob"] else "percentile")
    o.equal(res.name(), cubes[0].name(), "name")
    f = lay["times"]["frt"]
    lo, hi = 3600 * (12 - case["period"]), 3600 * (12 + case["step"] * (case["n"] - 1))
    o.equal((res.coord("time").points.tolist(), res.coord("time").bounds.tolist()), ([f + hi], [[f + lo, f + hi]]),
            "time")
    o.equal((res.coord("forecast_period").points.tolist(), res.coord("forecast_period").bounds.tolist()),
            ([hi], [[lo, hi]]), "forecast period")
    p = case["period"]
    cms = [CellMethod("mean", coords="time")] if case["old"] == "mean" else []
    cms += [CellMethod("sum", coords=["time"], comments="of %s over %d %s within time window" % (
        var, p, "hour" if p == 1 else "hours")), CellMethod("maximum", coords=["time"], comments="of " + var)]
    o.equal([str(x) for x in res.cell_methods], [str(x) for x in cms], "cell methods")
    return bool((want != arrays[0]).any())


SUBS = {"combine": Sub(gen_combine, run_combine, 4), "broadcast": Sub(gen_broadcast, run_broadcast, 2),
        "members": Sub(gen_members, run_members, 1), "window": Sub(gen_window, run_window, 1)}
