"""C37: comparing, ordering, selecting and masking cubes before they are used together."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: cubes of any layout on grids, times and with coordinates that are the same or differ "
        "in one respect, results whose dimensions were reordered, lost or added, masks of any type, "
        "ranges of positive and negative values, nested inputs; non-trivial when something differs, "
        "moves or is selected")
QUICK = 3000
THOROUGH = 60000


def dims(cube):
    return [x.name() for x in cube.coords(dim_coords=True)]


# ---------------------------------------------------------------- grids and times
def gen_match():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.integers(1, 4))
        return {"n": n, "lay": draw(g.layout(0, leads=("none", "realization"), spot=False, pos=False)),
                "what": draw(g.sampled(["spatial", "spatial", "hash", "hash", "time", "time", "time", "axes"])),
                "diff": [draw(g.sampled([None, None, "y0", "x0", "step", "kind", "bounds", "rev", "units"]))
                         for _ in range(n)],
                "order": draw(g.booleans()), "given": [draw(g.sampled([None, None, None, "h1", "h2"])) for _ in range(n)],
                "tdiff": [draw(g.sampled([None, None, None, "frt", "fp", "period", "noperiod"])) for _ in range(n)],
                "period": draw(g.booleans()), "ask": draw(g.sampled([None, None, None, True, False])), "blend": draw(g.sampled([0, 0, 1, 2])),
                "drop": draw(g.sampled([None, "x", "y", "scalar"])), "need": draw(g.booleans())}

    return case()


def run_match(case):
    from improver.metadata.utilities import check_grid_match, create_coordinate_hash
    from improver.utilities import cube_checker as cc
    from iris.coords import DimCoord
    from iris.cube import CubeList
    from vp import cubes as c

    lay, what, n = case["lay"], case["what"], case["n"]
    if case["ask"] is None:
        case = dict(case, ask=case["period"])
    cubes, grids, times = [], [], []
    for i in range(n):
        grid = dict(lay["grid"])
        kind = case["diff"][i] if i and what in ("spatial", "hash") else None
        if kind in ("y0", "x0"):
            grid[kind] += 1 if grid["kind"] == "latlon" else 1000
        elif kind == "step":
            if grid["nx"] == 1:
                kind = None
            else:
                grid["dx"] *= 2
        elif kind == "kind":
            grid.update(kind="laea" if grid["kind"] == "latlon" else "latlon")
        elif kind == "bounds":
            if grid["nx"] == 1 or grid["ny"] == 1:
                kind = None
            else:
                grid["bounds"] = not grid["bounds"]
        elif kind == "rev":
            if grid["ny"] == 1:
                kind = None
            else:
                grid["ydesc"] = not grid["ydesc"]
        t = dict(lay["times"], period=3600 if case["period"] else None)
        td = case["tdiff"][i] if i and what == "time" else None
        if td == "frt":
            t.update(frt=t["frt"] - 3600, fp=t["fp"] + 3600)
        elif td == "fp":
            t["fp"] += 3600
        elif td == "period":
            t["period"] = 7200
        elif td == "noperiod":
            t["period"] = None
        sub = dict(lay, grid=grid, times=t)
        if case["order"] and i:
            sub["dims"] = sub["dims"][::-1]
        cube = c.layout_cube(sub, np.full(lay["inner"], i, np.float32), "name_%d" % i, "K")
        if kind == "units":
            for a in "yx":
                cube.coord(axis=a).convert_units("radians" if grid["kind"] == "latlon" else "km")
        if case["blend"] and (i == 0 or case["blend"] == 1):
            cube.add_aux_coord(DimCoord(np.int64(t["frt"] + 3600 * i), long_name="blend_time", units=c.TIME_UNIT))
        if what == "hash" and case["given"][i]:
            cube.attributes["model_grid_hash"] = case["given"][i]
        cubes.append(cube)
        grids.append(kind)
        times.append(t)
    before = [o.snapshot(x) for x in cubes]
    diff = any(k is not None for k in grids)
    if what == "spatial":
        o.equal(bool(cc.spatial_coords_match(cubes)), not diff, "grids match")
        if diff:
            o.raises(ValueError, cc.assert_spatial_coords_match, cubes)
        else:
            cc.assert_spatial_coords_match(CubeList(cubes))
    elif what == "hash":
        # (bounds are not part of what identifies a grid)
        ids = [given or ("bounds" if k == "bounds" else k) for k, given in zip(grids, case["given"])]
        ids = [None if x == "bounds" else x for x in ids]
        hashes = [create_coordinate_hash(x) for x in cubes]
        for k, h in zip(grids, hashes):
            o.equal(h == hashes[0], k in (None, "bounds"), "hash of a grid that differs in %s" % k)
        if len(set(ids)) == 1:
            check_grid_match(cubes)
        else:
            o.raises(ValueError, check_grid_match, cubes)
        diff = len(set(ids)) > 1
    elif what == "time":
        with_b = [t["period"] is not None for t in times]
        bad = n < 2 or any(b != case["ask"] for b in with_b)
        vt = [(t["frt"] + t["fp"], t["period"]) for t in times]
        bad |= any(x != vt[0] for x in vt)
        if not case["blend"]:
            bad |= any(t["frt"] != times[0]["frt"] for t in times)
        if bad:
            o.raises(ValueError, cc.assert_time_coords_valid, cubes, case["ask"])
        else:
            cc.assert_time_coords_valid(cubes, case["ask"])
        diff = bad
    else:
        cube = cubes[0]
        gone = case["drop"]
        if gone in ("x", "y"):
            cube.remove_coord(cube.coord(axis=gone))
        elif gone == "scalar":
            cube = next(cube.slices_over(cube.coord(axis="y")))
        bad = gone in ("x", "y") or (gone == "scalar" and case["need"])
        if bad:
            o.raises(ValueError, cc.check_for_x_and_y_axes, cube, require_dim_coords=case["need"])
        else:
            cc.check_for_x_and_y_axes(cube, require_dim_coords=case["need"])
        return True
    for x, y in zip(before, cubes):
        o.unchanged(x, y)
    o.label(what, "differ" if diff else "same")
    return diff


# ---------------------------------------------------------------- dimensions
def gen_dims():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(draw(g.integers(1, 3)), leads=("none", "realization")))
        n_dims = len(lay["dims"])
        return {"lay": lay, "m": 0, "v": draw(g.integers(0, 100)), "perm": draw(g.permutation(n_dims)),
                "squeeze": draw(g.booleans()), "new": draw(g.integers(0, 2)),
                "where": [draw(g.integers(0, 5)) for _ in range(2)], "swap": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 8 + ["lost", "unlisted", "missing"]))}

    return case()


def run_dims(case):
    import iris
    from improver.utilities.cube_checker import check_cube_coordinates, find_dimension_coordinate_mismatch
    from iris.coords import AuxCoord
    from vp import cubes as c

    lay, bad = case["lay"], case["bad"]
    space = [lay["inner"][-1]] if lay["spot"] else lay["inner"][-2:]
    shape = [2] + lay["inner"]
    _ = space
    data = (np.arange(np.prod(shape)) * 7 % 101 + case["v"]).reshape(shape).astype(np.float32)
    cube = c.layout_cube(lay, data, "air_temperature", "K", c.percentile_coord([10, 50]))
    names = dims(cube)
    new = cube.copy()
    new.transpose(case["perm"])
    if case["squeeze"] or bad == "lost":
        for x in list(new.coords(dim_coords=True)):
            if len(x.points) == 1:
                new = next(new.slices_over(x))
    if bad == "lost":
        if dims(new) == names or len(names) < 2:
            pass
        long = [x for x in dims(new) if x not in ("spot_index",)]
        if not long:
            o.reject("nothing to lose")
        new = next(new.slices_over(long[0]))
        new.remove_coord(long[0])
    added = []
    for i in range(case["new"] if bad != "missing" else 1):
        name = ["zebra", "apple"][i]
        parts = []
        for j in range(2):
            q = new.copy(data=new.data + 1000 * j * (i + 1))
            q.add_aux_coord(AuxCoord(np.int32(j), long_name=name))
            parts.append(q)
        new = iris.cube.CubeList(parts).merge_cube()
        order = list(range(1, new.ndim))
        order.insert(min(case["where"][i], new.ndim - 1), 0)
        new.transpose(order)
        added.append(name)
    listed = list(added)
    if case["swap"]:
        listed = listed[::-1]
    if bad == "unlisted":
        if not listed:
            o.reject("nothing listed")
        listed = listed[1:]
    elif bad == "missing":
        listed = ["banana"]
    mism = sorted(find_dimension_coordinate_mismatch(cube, new))
    one = sorted(find_dimension_coordinate_mismatch(cube, new, two_way_mismatch=False))
    o.equal(one, sorted(set(dims(new)) - set(names)), "new dimensions")
    o.equal(mism, sorted(set(dims(new)) ^ set(names)), "dimensions of only one")
    exc = listed or None
    if bad:
        o.raises(iris.exceptions.CoordinateNotFoundError, check_cube_coordinates, cube, new,
                 exception_coordinates=exc)
        return True
    ref = new.copy()
    before = o.snapshot(cube)
    res = check_cube_coordinates(cube, new, exception_coordinates=exc)
    o.unchanged(before, cube)
    o.equal([x for x in dims(res) if x not in added], names, "order of the dimensions")
    if added and len(dims(ref)) == len(names) + len(added):
        o.equal([dims(res).index(x) for x in added], [dims(ref).index(x) for x in added], "places of new dimensions")
    o.equal(list(res.shape), [len(res.coord(x).points) for x in dims(res)], "shape")
    # each value is still next to its coordinates
    want = cube.data
    for i, name in enumerate(added):
        step = 1000 * (i + 1)
        want = np.stack([want, want + step], -1)
    axes = [dims(res).index(x) for x in names + added]
    o.equal(res.data.transpose(axes).tolist(), want.tolist(), "values")
    for x in ref.coords():
        o.equal(res.coord(x.name()).points.tolist(), x.points.tolist(), "coordinate " + x.name())
    o.label("added%d" % len(added), "squeezed" if case["squeeze"] else "whole")
    return bool(added) or case["perm"] != sorted(case["perm"])


# ---------------------------------------------------------------- masks, ranges and inputs
def gen_select():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization", "time")))
        n = g.size(lay["inner"])
        num = g.one_of(g.integers(-20, 20), g.integers(-20, 20).map(lambda x: x / 8),
                       g.integers(-20, 20).map(lambda x: x * 1e-7), g.integers(-20, 20).map(lambda x: x / 10))
        return {"lay": lay, "what": draw(g.sampled(["mask", "mask", "range", "inputs", "split"])),
                "v": draw(g.fixed(n, g.integers(0, 50))), "m": draw(g.fixed(n, g.integers(0, 1))),
                "own": draw(g.one_of(g.just(None), g.fixed(n, g.integers(0, 1)))),
                "mtype": draw(g.sampled(["i1", "i4", "f4", "bool"])), "invert": draw(g.booleans()),
                "perm": draw(g.permutation(len(lay["dims"]))), "swap": draw(g.booleans()),
                "calls": draw(g.integers(1, 2)), "bad": draw(g.sampled([None] * 8 + ["name", "count", "dims", "shape", "more"])),
                "points": sorted(draw(g.lists(num, min_size=1, max_size=7, unique=True))),
                "ends": [draw(g.integers(0, 6)) for _ in range(2)], "off": [draw(g.sampled([0, 0, 1, -1])) for _ in range(2)],
                "names": draw(g.lists(g.sampled(["a", "b", "c"]), max_size=4)),
                "ask": draw(g.sampled([None, "a", ["a"], ["a", "c"], ["z"], []])), "nest": draw(g.integers(0, 3))}

    return case()


def run_select(case):
    import iris
    from improver.utilities.common_input_handle import as_cube, as_cubelist
    from improver.utilities.cube_constraints import create_sorted_lambda_constraint
    from improver.utilities.forecast_reference_enforcement import split_cubes_by_name
    from improver.utilities.mask import apply_mask
    from iris.cube import CubeList
    from vp import cubes as c

    what, lay = case["what"], case["lay"]
    shape = lay["inner"]
    o.label(what)
    if what == "mask":
        bad = case["bad"]
        a = np.array(case["v"], np.float32).reshape(shape)
        own = np.zeros(shape, bool)
        if case["own"] is not None:
            own = np.array(case["own"], bool).reshape(shape)
            a = np.ma.MaskedArray(a, own)
        m = np.array(case["m"]).reshape(shape)
        cube = c.layout_cube(lay, a, "air_temperature", "K")
        sub = dict(lay, dims=[lay["dims"][i] for i in case["perm"]])
        scale = {"i1": -1, "i4": 2, "f4": 0.5, "bool": 1}[case["mtype"]]
        mask = c.layout_cube(sub, (m * scale).astype(case["mtype"]), "land_binary_mask", "1")
        if bad == "more":
            mask = iris.util.new_axis(mask)
            mask.add_dim_coord(c.percentile_coord([50.0]), 0)
            o.raises(ValueError, apply_mask, cube, mask, mask_name="land_binary_mask")
            return True
        if bad == "shape":
            x = [d for d in mask.coords(dim_coords=True) if len(d.points) > 2]
            if not x:
                o.reject("too small")
            mask = mask.extract(iris.Constraint(coord_values={x[0].name(): lambda cell: cell.point in x[0].points[:2]}))
            o.raises(Exception, apply_mask, cube, mask, mask_name="land_binary_mask")
            return True
        if bad == "dims":
            mask = next(mask.slices_over(dims(mask)[0]))
            o.raises(ValueError, apply_mask, cube, mask, mask_name="land_binary_mask")
            return True
        if bad == "count":
            o.raises(ValueError, apply_mask, cube, mask, mask.copy(), mask_name="land_binary_mask")
            o.raises(ValueError, apply_mask, mask, mask_name="land_binary_mask")
            return True
        if bad == "name":
            o.raises(Exception, apply_mask, cube, mask, mask_name="sea_binary_mask")
            return True
        before = [o.snapshot(cube), o.snapshot(mask)]
        args = [mask, cube] if case["swap"] else [cube, mask]
        for _ in range(case["calls"]):
            res = apply_mask(*args, mask_name="land_binary_mask", invert_mask=case["invert"])
            o.unchanged(before[0], cube)
            o.unchanged(before[1], mask)
        got = c.aligned(res, lay)
        want = (m == 0 if case["invert"] else m != 0) | own
        o.equal(np.ma.getmaskarray(got), want, "masked points")
        o.equal(np.where(want, 0, np.ma.getdata(got)), np.where(want, 0, np.ma.getdata(a)), "values")
        o.equal((res.name(), res.dtype, dims(res)), (cube.name(), cube.dtype, dims(cube)), "result")
        return bool(want.any() and not want.all())
    if what == "range":
        pts = np.array(case["points"], np.float32)
        if len(set(pts.tolist())) < len(pts):
            o.reject("equal points")
        lo, hi = sorted(x % len(pts) for x in case["ends"])
        ends = [float(case["points"][lo]), float(case["points"][hi])]
        # ends clear of any point select as they are
        gap = np.min(np.diff(pts.astype(float))) if len(pts) > 1 else 1.0
        if gap < 1e-3 * np.abs(pts).max():
            o.reject("points too close")
        ends[0] += case["off"][0] * gap / 2
        ends[1] += case["off"][1] * gap / 2
        p = np.array(case["points"], float)
        sel = (p >= min(ends) - gap / 4) & (p <= max(ends) + gap / 4)
        if case["swap"]:
            ends = ends[::-1]
        cube = c.new_cube(np.arange(len(pts), dtype=np.float32), "probability_of_rate_above_threshold", "1",
                          [c.threshold_coord(pts, "rate", "m s-1")], [])
        given = list(ends)
        constraint = create_sorted_lambda_constraint("rate", given)
        o.equal(given, ends, "given values")
        for _ in range(2):
            got = cube.extract(constraint)
            o.equal([] if got is None else np.atleast_1d(got.data).tolist(), np.flatnonzero(sel).tolist(),
                    "selected points")
        return bool(sel.any() and not sel.all())
    named = [c.layout_cube(lay, np.full(shape, i, np.float32), x, "K") for i, x in enumerate(case["names"])]
    if what == "split":
        ask = case["ask"]
        yes, no = split_cubes_by_name(CubeList(named), ask)
        want = [ask is None or x in ([ask] if isinstance(ask, str) else ask) for x in case["names"]]
        o.equal([id(x) for x in yes], [id(x) for x, w in zip(named, want) if w], "named cubes")
        o.equal([id(x) for x in no], [id(x) for x, w in zip(named, want) if not w], "other cubes")
        return bool(no)
    if not named:
        o.raises(ValueError, as_cubelist, [])
        o.raises(ValueError, as_cube, CubeList())
        return True
    k = case["nest"]
    args = [named, [CubeList(named)], [named[:1], *named[1:]], [[named[:1], named[1:]]]][k]
    args = args if k != 0 else list(named)
    from improver.utilities.flatten import flatten

    for given, want in (((x for x in [named[:1], tuple(named[1:])]), named), (["ab", [b"c", ("d", iter([1, 2.5]))], "e"],
                        ["ab", b"c", "d", 1, 2.5, "e"]), ({"ab": 1, "c": 2}.keys(), ["ab", "c"]), ("ab", ["ab"]),
                        (np.arange(3), [0, 1, 2]), (7, [7])):
        got = list(flatten(given))
        o.check(len(got) == len(want) and all(x is y or (not hasattr(y, "shape") and x == y)
                                              for x, y in zip(got, want)), "flattened: %r" % (got,))
    o.equal([id(x) for x in as_cubelist(iter(named))], [id(x) for x in named], "cubes of an iterator")
    res = as_cubelist(*args)
    o.check(isinstance(res, CubeList), "a list of cubes")
    o.equal([id(x) for x in res], [id(x) for x in named], "cubes")
    if len(named) == 1:
        o.check(as_cube(*args) is named[0], "the cube itself")
    elif len(set(case["names"])) > 1 or not lay["k"] < 0:
        # different diagnostics, or the same twice, are not one cube
        o.raises(ValueError, as_cube, *args)
        parts = []
        for i, x in enumerate(named):
            q = named[0].copy(data=x.data)
            if q.coords("realization"):
                break
            q.add_aux_coord(c.realization_coord([0])[0].copy([i]))
            parts.append(q)
        if parts:
            one = as_cube(CubeList(parts[::-1]))
            o.equal(one.coord("realization").points.tolist(), list(range(len(parts))), "merged cubes")
            for i, q in enumerate(one.slices_over("realization")):
                o.check(bool((q.data == i).all()), "member %d" % i)
    o.raises(TypeError, as_cubelist, *args, "text")
    return len(named) > 1


# ---------------------------------------------------------------- extraction by text
VALUES = [0.1, 0.5, 1.0, 1.0005, 5.0, 10.0, 10.0625, 99.5]


def gen_extract():
    from vp import gens as g

    @g.composite
    def case(draw):
        nx, ny = draw(g.integers(1, 6)), draw(g.integers(1, 4))
        pts = sorted(draw(g.lists(g.sampled(VALUES), min_size=1, max_size=5, unique=True)))
        members = sorted(draw(g.lists(g.integers(0, 30), min_size=0, max_size=4, unique=True)))
        cons = []
        kinds = ["main", "main", "realization", "y", "x", "lon"]
        for what in draw(g.lists(g.sampled(kinds), min_size=1, max_size=3, unique=True)):
            cons.append({"what": what, "how": draw(g.sampled(["one", "list", "range", "range", "range"])),
                         "a": draw(g.integers(0, 5)), "b": draw(g.integers(0, 5)), "miss": draw(g.integers(0, 11)) == 0,
                         "step": draw(g.sampled([None, None, 1, 2, 3])), "pad": draw(g.integers(0, 3)),
                         "swap": draw(g.integers(0, 3)) == 0})
        return {"pts": pts, "members": members, "nx": nx, "ny": ny, "cons": cons,
                "kind": draw(g.sampled(["threshold", "percentile", "height"])),
                "dx": draw(g.sampled([1, 10, 30, 60])), "lon0": draw(g.sampled([-180, -90, -20, -5, 0, 170, 340])),
                "y0": draw(g.integers(-60, 50)), "bounds": draw(g.booleans()), "units": draw(g.booleans()),
                "original": draw(g.booleans()), "order": draw(g.permutation(4)), "ignore": draw(g.booleans()),
                "via": draw(g.sampled(["plugin", "plugin", "function"])), "sites": draw(g.integers(0, 5)) == 0,
                "word": draw(g.sampled(["plain", "quoted", "list"])), "pick": draw(g.lists(
                    g.integers(0, 6), min_size=1, max_size=3, unique=True))}

    return case()


def run_sites(case):
    """Sites selected by their identifiers, which are text such as 03002."""
    from improver.utilities.cube_extraction import ExtractSubCube
    from vp import cubes as c

    n = case["nx"]
    wmo = ["%05d" % (2998 + i) if i % 3 else "99EGL"[:5 - i % 2] + "abc"[i % 2] for i in range(n)]
    cube = c.spot_cube(np.arange(n, dtype=np.float32), "air_temperature", "K", n, scalars=c.time_coords(
        {"frt": 1510286400, "fp": 3600, "period": None}), wmo=wmo)
    ids = ["%05d" % 1 if i >= n else wmo[i] for i in case["pick"]]
    if case["word"] != "list":
        ids = ids[:1]
    text = {"plain": ids[0], "quoted": repr(ids[0]), "list": repr(ids)}[case["word"]]
    plugin = ExtractSubCube(["wmo_id=" + text], ignore_failure=case["ignore"])
    before = o.snapshot(cube)
    want = [i for i in range(n) if wmo[i] in ids]
    if not want and not case["ignore"]:
        o.raises(ValueError, plugin, cube)
    else:
        res = plugin(cube)
        o.equal(np.atleast_1d(res.data).tolist(), want or list(range(n)), "sites")
        o.equal(list(np.atleast_1d(res.coord("wmo_id").points)), [wmo[i] for i in want or range(n)], "identifiers")
    o.unchanged(before, cube)
    o.label("sites", case["word"])
    return bool(want)


def run_extract(case):
    from improver.utilities.cube_extraction import ExtractSubCube, extract_subcube
    from iris.coords import DimCoord
    from vp import cubes as c

    if case["sites"]:
        return run_sites(case)
    kind, nx, ny = case["kind"], case["nx"], case["ny"]
    pts = np.array(case["pts"], np.float32)
    name, u1, u2, factor = {"threshold": ("wind_speed", "m s-1", "km h-1", 3.6),
                            "percentile": ("percentile", "%", "1", 0.01),
                            "height": ("height", "m", "km", 0.001)}[kind]
    main = {"threshold": lambda: c.threshold_coord(pts, "wind_speed", "m s-1"),
            "percentile": lambda: c.percentile_coord(pts),
            "height": lambda: DimCoord(pts, "height", units="m")}[kind]()
    lon = case["lon0"] + case["dx"] * np.arange(nx)
    lat = case["y0"] + 2.5 * np.arange(ny)

    def axis(p, n, step):
        b = np.stack([p - step / 2, p + step / 2], -1).astype(np.float32) if case["bounds"] else None
        return DimCoord(p.astype(np.float32), n, units="degrees", bounds=b)

    if lon[-1] - lon[0] >= 360:
        o.reject("more than the globe")
    axes = [main] + ([c.realization_coord(case["members"])] if case["members"] else []) + [
        axis(lat, "latitude", 2.5), axis(lon, "longitude", case["dx"])]
    shape = [x.shape[0] for x in axes]
    data = np.arange(np.prod(shape), dtype=np.float32).reshape(shape)
    t = {"frt": 1510286400, "fp": 3600, "period": None}
    names = [x.name() for x in axes]
    order = [i for i in case["order"] if i < len(axes)]
    cube = c.new_cube(np.ascontiguousarray(data.transpose(order)), "x" if kind != "threshold" else
                      "probability_of_wind_speed_above_threshold", "1", [axes[i] for i in order], c.time_coords(t))
    values = {x.name(): np.array(x.points, float) for x in axes}
    given = {name: list(case["pts"]), "realization": case["members"], "latitude": lat.tolist(),
             "longitude": lon.tolist()}
    keep = {n: list(range(len(given[n]))) for n in names}
    texts, units, steps, wrap, found = [], [], {}, None, True
    for con in case["cons"]:
        what = con["what"]
        n = {"main": name, "realization": "realization", "y": "latitude", "x": "longitude", "lon": "longitude"}[what]
        if n not in names or any(x.split("=")[0].strip() == n for x in texts):
            continue
        p = given[n]
        unit = u2 if what == "main" and case["units"] else ""
        scale = factor if unit else 1
        if what == "y" and con["how"] == "range" and case["units"] and con["pad"] % 2:
            unit, scale = "radians", np.pi / 180
        a, b = con["a"] % len(p), con["b"] % len(p)
        if n == "longitude" and (what == "lon" or con["how"] == "range"):
            # whole turns away from the points of the grid, possibly across its ends
            lo = p[a] + 360 * (con["b"] % 3 - 1) - (con["pad"] % 2) * case["dx"] / 2
            hi = lo + con["pad"] * 45 + case["dx"] * con["b"]
            hi = min(hi, lo + 350)
            text = "[%g:%g" % (lo, hi)
            w = (np.array(p) - lo) % 360 + lo
            idx = [i for i in np.argsort(w, kind="stable") if w[i] <= hi]
            wrap = (lo, hi)
        elif con["how"] == "range":
            lo, hi = min(p[a], p[b]), max(p[a], p[b])
            if con["miss"]:
                lo, hi = max(p) + 1000, max(p) + 2000
            if unit:
                lo, hi = (lo - abs(lo) * 1e-3) * scale, (hi + abs(hi) * 1e-3) * scale
            idx = [i for i, x in enumerate(p) if lo <= x * scale <= hi]
            ends = [lo, hi][::-1] if con["swap"] else [lo, hi]
            text = "[%r:%r" % tuple(ends)
        else:
            ask = [p[a]] if con["how"] == "one" else sorted({p[a], p[b], 777})
            if con["miss"]:
                ask = [555]
            idx = [i for i, x in enumerate(p) if x in ask]
            shown = [x * scale for x in ask]
            text = repr(shown[0]) if len(shown) == 1 and con["how"] == "one" else repr(shown)
        if text[0] == "[" and ":" in text:
            if con["step"] and len(idx) > 1:
                text += ":%d" % con["step"]
                steps[n] = con["step"]
            text += "]"
        keep[n] = idx
        found = found and bool(idx)
        texts.append(["%s=%s", "%s = %s", " %s =%s"][con["pad"] % 3] % (n, text))
        units.append(unit or ["None", None, "none"][con["b"] % 3])
    if not texts:
        o.reject("no constraint")
    converted = {t.split("=")[0].strip(): u for t, u in zip(texts, units) if u in (u2, "radians")}
    units = units if converted else None
    if "[" not in texts[0] and case["ignore"] and case["via"] == "plugin" and units is None:
        o.raises(ValueError, ExtractSubCube(texts, units=["1"] * (len(texts) + 1)), cube)
    before = o.snapshot(cube)
    if case["via"] == "plugin":
        plugin = ExtractSubCube(texts, units=units, use_original_units=case["original"], ignore_failure=case["ignore"])
        if not found and not case["ignore"]:
            o.raises(ValueError, plugin, cube)
            return True
        res = plugin(cube)
    else:
        res = extract_subcube(cube, texts, units=units, use_original_units=case["original"])
        if not found:
            o.check(res is None, "a cube where nothing matches")
            return True
    if not converted:
        o.unchanged(before, cube)
    if not found:
        o.check(res is cube, "the cube itself where nothing matches")
        return True
    for n, k in steps.items():
        keep[n] = keep[n][::k]
    want = data[np.ix_(*[keep[n] for n in names])]
    there = [n for n in names if res.coord_dims(n)]
    got = res.data.transpose([res.coord_dims(n)[0] for n in there])
    o.equal(got.reshape(-1).tolist(), want.reshape(-1).tolist(), "selected values")
    o.equal([len(keep[n]) for n in there], list(got.shape), "shape")
    o.equal([x.name() for x in res.coords(dim_coords=True)], [names[i] for i in order if names[i] in there],
            "order of the dimensions")
    for n in names:
        x = res.coord(n)
        p = np.array(given[n], float)[keep[n]]
        if n == "longitude" and wrap:
            p = (p - wrap[0]) % 360 + wrap[0]
        scale = 1
        if n in converted:
            o.equal(str(x.units), (u1 if n == name else "degrees") if case["original"] else converted[n],
                    "units of the coordinate")
            if case["original"]:
                o.equal(str(cube.coord(n).units), str(x.units), "units of the input")
            else:
                scale = factor if n == name else np.pi / 180
            p = p * scale
        o.close(np.array(x.points, float), p, n, rtol=1e-5, atol=1e-4 if n == "longitude" else 0)
        if n in ("latitude", "longitude"):
            o.equal(str(x.dtype), "float32", "type of " + n)
            if case["bounds"]:
                half = (2.5 if n == "latitude" else case["dx"]) / 2 * scale
                o.close(x.bounds, np.stack([p - half, p + half], -1), "bounds of " + n, rtol=1e-5, atol=1e-4)
    o.label("wrapped" if wrap else "plain", "%d constraints" % len(texts), "units" if converted else "no units",
            "thinned" if steps else "not thinned")
    return want.size < data.size


SUBS = {"match": Sub(gen_match, run_match, 2), "dims": Sub(gen_dims, run_dims, 2),
        "select": Sub(gen_select, run_select, 3), "extract": Sub(gen_extract, run_extract, 3)}
