"""C18: reliability tables: construction, aggregation, manipulation and application."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: histories of one to four validity times on grids or sites for one or two thresholds, with "
        "unmatched times, masked truths, NaN and bin-edge probabilities; tables with empty, sparse "
        "and non-monotonic bins; forecasts calibrated by the resulting curves; non-trivial when at "
        "least two bins are populated, changed or used")
QUICK = 2400
THOROUGH = 40000
T0 = 1510286400
DAY = 86400


# ---------------------------------------------------------------- construction
def gen_construct():
    from vp import gens as g

    @g.composite
    def case(draw):
        nbins = draw(g.integers(2, 7))
        lower, upper = draw(g.booleans()), draw(g.booleans())
        if nbins <= 2:
            upper = upper and not lower
        spot = draw(g.booleans())
        ny, nx = (1, draw(g.integers(1, 5))) if spot else (draw(g.integers(1, 3)),
                                                           draw(g.integers(1, 3)))
        nt = draw(g.integers(1, 4))
        nthr = draw(g.sampled([1, 1, 2]))
        n = ny * nx
        prob = g.one_of(g.grid_ints(0, 1, 0.0625), g.sampled(
            ["edge0", "edge1", "edge2", "edge3", "edge1-", "edge2-", "edge3-", "edge0+", 0.0,
             1.0, 1e-6, 5e-7, 0.9999999, 0.999999, "nan"]))
        mkind = draw(g.sampled(["none", "none", "fixed", "varies", "varies"]))
        masks = [draw(g.mask([ny, nx])) for _ in range(nt)]
        if mkind == "fixed":
            masks = [masks[0]] * nt
        return {
            "nbins": nbins, "lower": lower, "upper": upper, "spot": spot, "ny": ny, "nx": nx,
            "nt": nt, "nthr": nthr,
            "fc": draw(g.fixed(nt * nthr * n, prob)),
            "tr": draw(g.fixed(nt * nthr * n, g.sampled([0, 1]))),
            "masks": None if mkind == "none" else masks,
            "only": draw(g.lists(g.sampled(["both", "both", "both", "both", "forecast",
                                            "truth"]), min_size=nt, max_size=nt)),
            "order": draw(g.booleans()), "thr_dim": draw(g.booleans()),
            "aggregate": draw(g.sampled(["none", "none", "space", "x"])),
            "cube_order": draw(g.booleans()),
        }

    return case()


def run_construct(case):
    from improver.calibration.reliability_calibration import (
        ConstructReliabilityCalibrationTables as Plugin,
    )
    from vp import cubes as c

    plugin = Plugin(n_probability_bins=case["nbins"],
                    single_value_lower_limit=case["lower"],
                    single_value_upper_limit=case["upper"])
    ny, nx, nt, nthr = case["ny"], case["nx"], case["nt"], case["nthr"]
    inner = case["nbins"] - case["lower"] - case["upper"]
    edges = np.linspace(0, 1, inner + 1).astype(np.float32)

    def value(v):
        if v == "nan":
            return np.nan
        if isinstance(v, str):
            e = edges[min(int(v[4]), inner)]
            if v.endswith("-"):
                e = max(np.nextafter(e, np.float32(0), dtype=np.float32), np.float32(0))
            if v.endswith("+"):
                e = min(np.nextafter(e, np.float32(1), dtype=np.float32), np.float32(1))
            return e
        return v

    shape = [nt, nthr, ny, nx]
    fc = np.array([value(v) for v in case["fc"]], np.float32).reshape(shape)
    tr = np.array(case["tr"], np.float32).reshape(shape)
    mask = np.zeros([nt, ny, nx], bool)
    if case["masks"]:
        for i, m in enumerate(case["masks"]):
            if m is not None:
                mask[i] = np.array(m, bool).reshape(ny, nx)
    only = case["only"]
    if not any(x == "both" for x in only):
        only = ["both"] * nt
    times = [T0 + DAY * i for i in range(nt)]
    ifc = [i for i in range(nt) if only[i] != "truth"]
    itr = [i for i in range(nt) if only[i] != "forecast"]
    use = [i for i in range(nt) if only[i] == "both" and not np.isnan(fc[i]).all()]
    thr = [273.0, 280.0][:nthr]
    drop = nthr == 1 and not case["thr_dim"]
    grid = {"kind": "laea", "ny": ny, "nx": nx, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}
    tc = c.threshold_coord(thr, "air_temperature", "K")

    def build(a, idx, truth):
        a = a[idx]
        if truth and case["masks"]:
            a = np.ma.masked_array(a, np.broadcast_to(mask[idx][:, None], a.shape))
        if case["spot"]:
            a = a[:, :, 0]
        lead = [tc]
        if drop:
            a, lead = a[:, 0], []
        cube = c.history_cube(a, "probability_of_air_temperature_above_threshold", "1",
                              [times[i] for i in idx], 14400, lead,
                              None if case["spot"] else grid, truth=truth)
        if drop:
            cube.add_aux_coord(tc[0])
        elif case["cube_order"]:
            cube.transpose([1, 0] + list(range(2, cube.ndim)))
        return cube

    if not use:
        o.raises(ValueError, plugin, build(fc, ifc, False), build(tr, itr, True))
        return False
    fcube, tcube = build(fc, ifc, False), build(tr, itr, True)
    fb, tb = o.snapshot(fcube), o.snapshot(tcube)
    agg = None
    if case["aggregate"] != "none":
        sp = ["spot_index"] if case["spot"] else (
            ["projection_x_coordinate"] if case["aggregate"] == "x" else
            ["projection_y_coordinate", "projection_x_coordinate"])
        agg = [x for x in sp]
    masked_all = case["masks"] is not None and not (~mask[use]).any()
    res = plugin(fcube, tcube, agg)
    o.unchanged(fb, fcube)
    o.unchanged(tb, tcube)

    # the bins partition 0 to 1
    bins = res.coord("probability_bin")
    b = bins.bounds.astype(np.float32)
    o.equal(b.shape, (case["nbins"], 2), "bins")
    o.check(b[0, 0] == 0 and b[-1, 1] == 1, "the bins cover %s to %s", b[0, 0], b[-1, 1])
    o.equal(b[1:, 0].tolist(), np.nextafter(b[:-1, 1], np.float32(1)).tolist(),
            "where each bin starts, given the end of the one before")
    tol = 1e-6
    want_low = ([0.0] if case["lower"] else []) + [
        k / inner for k in range(inner)] + ([1.0] if case["upper"] else [])
    o.close(b[:, 0], np.array(want_low), "lower edges", rtol=0, atol=1.3e-6)
    if case["lower"]:
        o.close(b[0, 1], tol, "first bin", rtol=1e-3, atol=0)
    if case["upper"]:
        o.close(1 - b[-1, 0], tol, "last bin", rtol=0.1, atol=0)

    # the table
    nb = case["nbins"]
    want = np.zeros([nthr, 3, nb, ny, nx])
    for i in use:
        for k in range(nthr):
            for y in range(ny):
                for x in range(nx):
                    p = fc[i, k, y, x]
                    if mask[i, y, x] or np.isnan(p):
                        continue
                    (j,) = [q for q in range(nb) if b[q, 0] <= p <= b[q, 1]]
                    want[k, :, j, y, x] += [tr[i, k, y, x], p, 1]
    gone = mask[use].all(axis=0)
    wmask = np.broadcast_to(gone, want.shape)
    if agg:
        keep_y = case["aggregate"] == "x" and not case["spot"]
        axes = (4,) if keep_y else (3, 4)
        want = np.where(wmask, 0, want).sum(axis=axes)
        wmask = wmask.all(axis=axes)
    elif case["spot"]:
        want, wmask = want[:, :, :, 0], wmask[:, :, :, 0]
    got = res.data
    if not res.coord_dims("air_temperature"):
        got = got[None]
    o.equal(got.shape, want.shape, "shape of the table")
    if masked_all or wmask.any():
        o.check(np.ma.isMaskedArray(got), "points with no truth at any time are not masked")
        o.close_masked(got, want, wmask, "table")
    else:
        o.check(not np.ma.is_masked(got), "points with a truth are masked: %s", o.show(got))
        o.close(np.ma.getdata(got), want, "table")
    o.equal(res.dtype, np.float32, "type")
    frt = res.coord("forecast_reference_time")
    runs = [times[i] - 14400 for i in use]
    o.equal(int(frt.points[0]), max(runs), "forecast reference time")
    o.equal([int(v) for v in frt.bounds[0]], [min(runs), max(runs)], "range of runs")
    o.equal(int(res.coord("forecast_period").points[0]), 14400, "forecast period")
    o.equal(res.coord("table_row_name").points.tolist(),
            ["observation_count", "sum_of_forecast_probabilities", "forecast_count"], "rows")
    o.close(res.coord("air_temperature").points, thr, "thresholds")
    o.equal(res.name(), "reliability_calibration_table", "name")
    return len(set(case["fc"])) > 1


# ---------------------------------------------------------------- aggregation
def table_cube(data, frt, bounds=None, thr=None, grid=None):
    """data: [thr,] 3, bins [, y, x]"""
    import iris
    from vp import cubes as c

    nb = data.shape[2]
    edges = np.linspace(0, 1, nb + 1).astype(np.float32)
    up = np.nextafter(edges, np.float32(0))
    up[-1] = 1
    bb = np.stack([edges[:-1], up[1:]], 1).astype(np.float32)
    dims = [c.threshold_coord(thr, "air_temperature", "K"),
            iris.coords.DimCoord(np.arange(3, dtype=np.int32), long_name="table_row_index",
                                 units="1"),
            iris.coords.DimCoord(bb.mean(axis=1).astype(np.float32),
                                 long_name="probability_bin", units="1", bounds=bb)]
    if grid is not None:
        dims += c.yx_coords(grid)
    tu = c.TIME_UNIT
    scal = [iris.coords.DimCoord(np.int64(frt), standard_name="forecast_reference_time",
                                 units=tu, bounds=None if bounds is None else
                                 np.array(bounds, np.int64)),
            iris.coords.DimCoord(np.int32(14400), standard_name="forecast_period",
                                 units="seconds")]
    cube = c.new_cube(data, "reliability_calibration_table", "1", dims, scal)
    cube.add_aux_coord(iris.coords.AuxCoord(
        np.array(["observation_count", "sum_of_forecast_probabilities", "forecast_count"]),
        long_name="table_row_name", units="1"), 1)
    return cube


def gen_aggregate():
    from vp import gens as g

    @g.composite
    def case(draw):
        k = draw(g.integers(1, 3))
        nb, ny, nx = draw(g.integers(2, 4)), draw(g.integers(1, 3)), draw(g.integers(1, 3))
        shape = [k, 2, 3, nb, ny, nx]
        size = k * 6 * nb * ny * nx
        return {"k": k, "nb": nb, "ny": ny, "nx": nx,
                "values": draw(g.fixed(size, g.integers(0, 9))),
                "masks": [draw(g.mask([ny, nx])) for _ in range(k)],
                "use_mask": draw(g.booleans()),
                "spans": draw(g.fixed(k, g.sampled([0, 1, 2]))),
                "gaps": draw(g.fixed(k, g.sampled([1, 1, 1, 2, 0]))),
                "coords": draw(g.sampled([None, [], ["x"], ["y"], ["y", "x"]])),
                "shape": shape}

    return case()


def run_aggregate(case):
    from improver.calibration.reliability_calibration import (
        AggregateReliabilityCalibrationTables as Plugin,
    )

    k = case["k"]
    vals = np.array(case["values"], np.float32).reshape(case["shape"])
    mask = np.zeros(case["shape"], bool)
    if case["use_mask"]:
        for i, m in enumerate(case["masks"]):
            if m is not None:
                mask[i] = np.array(m, bool).reshape(case["ny"], case["nx"])
    grid = {"kind": "laea", "ny": case["ny"], "nx": case["nx"], "dy": 2000, "dx": 2000, "y0": 0,
            "x0": 0}
    spans, end = [], T0
    clash = False
    for i in range(k):
        lo = end + DAY * case["gaps"][i]
        if i and case["gaps"][i] == 0:
            clash = True
        end = lo + DAY * case["spans"][i]
        spans.append((lo, end))
    if k > 1 and not clash and len({s[1] for s in spans}) < k:
        o.reject()
    cubes = [table_cube(np.ma.masked_array(vals[i], mask[i]) if case["use_mask"] else vals[i],
                        spans[i][1], spans[i], [273.0, 280.0], grid) for i in range(k)]
    before = [o.snapshot(x) for x in cubes]
    coords = case["coords"]
    names = None if coords is None else ["projection_%s_coordinate" % a for a in coords]
    mine = None if names is None else list(names)
    if clash:
        o.raises(ValueError, Plugin(), cubes, names)
        return True
    res = Plugin()(cubes, names)
    for a, b in zip(before, cubes):
        o.unchanged(a, b)
    o.equal(names, mine, "the list of coordinates")
    axes = [0] + ([5] if coords and "x" in coords else []) + \
        ([4] if coords and "y" in coords else [])
    want = np.where(mask, 0, vals).sum(axis=tuple(axes))
    wmask = mask.all(axis=tuple(axes))
    if k == 1 and not coords:
        want, wmask = vals[0], mask[0]
    if case["use_mask"]:
        o.close_masked(res.data, want, wmask, "table")
    else:
        o.close(res.data, want, "table")
    frt = res.coord("forecast_reference_time")
    o.equal(int(frt.points[0]), max(s[1] for s in spans), "forecast reference time")
    o.equal([int(v) for v in frt.bounds[0]], [min(s[0] for s in spans),
                                               max(s[1] for s in spans)], "range of runs")
    return k > 1 or bool(coords)


# ---------------------------------------------------------------- manipulation
def gen_manipulate():
    from vp import gens as g

    @g.composite
    def case(draw):
        nb = draw(g.integers(1, 6))
        pts = draw(g.sampled([0, 0, 2, 4]))
        m = 2 * max(pts, 1) * nb
        count = g.sampled([0, 1, 3, 8, 10, 12, 20, 40])
        return {"nb": nb, "pts": pts, "counts": draw(g.fixed(m, count)),
                "fracs": draw(g.fixed(m, g.grid_ints(0, 1, 0.125))),
                "rise": draw(g.booleans()), "minimum": draw(g.sampled([1, 2, 5, 10, 15]))}

    return case()


def reference_table(obs, fps, cnt, edges, minimum):
    """The three documented steps, on lists; edges are the lower bounds of the bins."""
    obs, fps, cnt, edges = list(obs), list(fps), list(cnt), list(edges)

    def merge(u):
        for lst in (obs, fps, cnt):
            lst[u - 1:u + 1] = [lst[u - 1] + lst[u]]
        del edges[u]

    while len(cnt) > 1 and min(cnt) < minimum:
        low = [n for n in cnt if n < minimum]
        i = cnt.index(max(low))
        if i == 0:
            u = 1
        elif i == len(cnt) - 1:
            u = i
        else:
            u = i if cnt[i - 1] < cnt[i + 1] else i + 1
        merge(u)
    freq = [a / n if n else 0 for a, n in zip(obs, cnt)]
    if all(a <= b for a, b in zip(freq, freq[1:])):
        return obs, fps, cnt, edges
    for u in range(len(cnt) - 1, 0, -1):
        if obs[u] / cnt[u] < obs[u - 1] / cnt[u - 1]:
            merge(u)
            break
    freq = [a / n for a, n in zip(obs, cnt)]
    if cnt[0] < cnt[-1]:
        for i in range(len(freq) - 2, -1, -1):
            freq[i] = min(freq[i], freq[i + 1])
    else:
        for i in range(1, len(freq)):
            freq[i] = max(freq[i], freq[i - 1])
    return [f * n for f, n in zip(freq, cnt)], fps, cnt, edges


def run_manipulate(case):
    from improver.calibration.reliability_calibration import ManipulateReliabilityTable as Plugin

    nb, pts = case["nb"], case["pts"]
    n = max(pts, 1)
    cnt = np.array(case["counts"], np.float64).reshape(2, n, nb)
    frac = np.array(case["fracs"]).reshape(2, n, nb)
    if case["rise"]:
        frac = np.sort(frac, axis=2)
    obs = np.round(frac * cnt)
    centre = (np.arange(nb) + 0.5) / nb
    fps = cnt * centre.astype(np.float32)
    data = np.stack([obs, fps, cnt], 1).astype(np.float32)   # thr, row, point, bin
    data = np.moveaxis(data, 2, 3)                           # thr, row, bin, point
    grid = None
    if pts:
        ny = 2 if pts == 4 else 1
        grid = {"kind": "laea", "ny": ny, "nx": 2, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}
        data = data.reshape(2, 3, nb, ny, 2)
    else:
        data = data[..., 0]
    cube = table_cube(data, T0, (T0 - DAY, T0), [273.0, 280.0], grid)
    before = o.snapshot(cube)
    bb = cube.coord("probability_bin").bounds
    minimum = case["minimum"]
    if nb == 1 and (cnt == 0).any():
        o.reject()
    res = Plugin(minimum_forecast_count=minimum, point_by_point=bool(pts))(cube)
    o.unchanged(before, cube)
    o.equal(len(res), 2 * n, "number of tables")
    changed = False
    for k in range(2):
        for p in range(n):
            tab = res[k * n + p]
            wo, wf, wc, we = reference_table(obs[k, p], fps[k, p], cnt[k, p], bb[:, 0], minimum)
            if sum(wc) == 0:
                o.label("empty")
                continue
            changed |= len(wc) < nb
            o.close(tab.coord("air_temperature").points, [[273.0, 280.0][k]], "threshold")
            if pts:
                for a in "yx":
                    pos = {"y": p // 2, "x": p % 2}[a] * 2000.0
                    o.close(tab.coord(axis=a).points, [pos], "position")
            got = np.asarray(tab.data, float).reshape(3, -1)
            o.close(got[2], wc, "forecast counts")
            o.close(got[1], wf, "sums of forecast probabilities")
            o.close(got[0], wo, "observation counts", atol=1e-4)
            tb = np.atleast_2d(tab.coord("probability_bin").bounds)
            o.close(tb[:, 0], we, "bins")
            o.equal(float(tb[-1, 1]), 1.0, "end of the last bin")
            freq = got[0] / got[2]
            o.check((np.diff(freq) >= -1e-6).all(), "frequencies %s fall", freq)
            o.check(got[2].min() >= minimum or len(got[2]) == 1, "counts %s below %s", got[2],
                    minimum)
    return changed


# ---------------------------------------------------------------- application
def gen_apply():
    from vp import gens as g

    @g.composite
    def case(draw):
        nthr = draw(g.integers(1, 3))
        spot = draw(g.booleans())
        point = draw(g.integers(0, 3)) == 0
        ny, nx = (1, draw(g.integers(1, 4))) if spot else (draw(g.integers(1, 3)),
                                                           draw(g.integers(2, 3)))
        n = ny * nx
        tables = nthr * (n if point else 1)
        sizes = draw(g.fixed(tables, g.sampled([1, 2, 2, 3, 4])))
        return {"nthr": nthr, "spot": spot, "point": point, "ny": ny, "nx": nx,
                "fc": draw(g.fixed(nthr * n, g.grid_ints(0, 1, 0.0625))),
                "mask": draw(g.mask([ny, nx])), "sizes": sizes,
                "freqs": draw(g.fixed(tables * 4, g.grid_ints(0, 1, 0.125))),
                "offs": draw(g.fixed(tables * 4, g.grid_ints(0.125, 0.875, 0.125))),
                "relative": draw(g.sampled(["above", "below"])),
                "as_cube": draw(g.booleans()), "missing": draw(g.integers(0, 9)) == 0,
                "thr_dim": draw(g.booleans()), "thr_last": draw(g.booleans())}

    return case()


def run_apply(case):
    import iris
    from improver.calibration.reliability_calibration import ApplyReliabilityCalibration as Plugin
    from vp import cubes as c

    nthr, ny, nx, spot, point = [case[k] for k in ("nthr", "ny", "nx", "spot", "point")]
    n = ny * nx
    thr = [273.0, 280.0, 290.5][:nthr]
    above = case["relative"] == "above"
    fc = np.array(case["fc"], np.float32).reshape(nthr, n)
    fc = np.sort(fc, axis=0)
    if above:
        fc = fc[::-1].copy()
    mask = None if case["mask"] is None else np.array(case["mask"], bool)
    if mask is not None and (mask.all() or point):
        mask = None
    grid = {"kind": "laea", "ny": ny, "nx": nx, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}
    name = "probability_of_air_temperature_%s_threshold" % case["relative"]
    tc = c.threshold_coord(thr, "air_temperature", "K", case["relative"])
    data = fc.reshape((nthr, n) if spot else (nthr, ny, nx))
    if mask is not None:
        data = np.ma.masked_array(data, np.broadcast_to(mask.reshape(data.shape[1:]),
                                                        data.shape))
    scalar = nthr == 1 and not case["thr_dim"]
    times = c.time_coords({"frt": T0, "fp": 14400})
    lead, scal = ([tc], times) if not scalar else ([], times + [tc[0]])
    if scalar:
        data = data[0]
    attrs = {"title": "A title", "source": "IMPROVER", "institution": "Met Office"}
    lats, lons = 50 + np.arange(n), np.arange(n) - 5.0
    if spot:
        cube = c.spot_cube(data, name, "1", n, lead, scal, attrs, lats=lats, lons=lons)
    else:
        cube = c.new_cube(data, name, "1", lead + c.yx_coords(grid), scal, attrs)
    if case["thr_last"] and not scalar and not point:
        cube.transpose(list(range(1, cube.ndim)) + [0])

    # tables whose forecast probabilities and frequencies do not fall
    tabs = iris.cube.CubeList()
    curves = {}
    freqs = np.array(case["freqs"]).reshape(-1, 4)
    offs = np.array(case["offs"]).reshape(-1, 4)
    size = case["sizes"]
    as_cube = case["as_cube"] and not point
    if as_cube:
        size = [max(2, size[0])] * len(size)
    for k in range(nthr):
        for p in range(n if point else 1):
            t = k * (n if point else 1) + p
            nb = size[t]
            fq = np.sort(freqs[t][:nb])
            mean = (np.arange(nb) + offs[t][:nb]) / nb
            cnt = np.full(nb, 16.0)
            data = np.stack([fq * cnt, mean * cnt, cnt])[None].astype(np.float32)
            tab = table_cube(data, T0, (T0 - DAY, T0), [thr[k]])[0]
            if point:
                if spot:
                    tab.add_aux_coord(iris.coords.AuxCoord(
                        np.float32(lats[p]), standard_name="latitude", units="degrees"))
                    tab.add_aux_coord(iris.coords.AuxCoord(
                        np.float32(lons[p]), standard_name="longitude", units="degrees"))
                else:
                    for ax, i in (("y", p // nx), ("x", p % nx)):
                        tab.add_aux_coord(cube.coord(axis=ax)[i])
            tabs.append(tab)
            curves[k, p] = (mean, fq) if nb > 1 else None
    given = tabs.merge_cube() if as_cube else tabs
    plugin = Plugin(point_by_point=point)
    if case["missing"] and not point and not (as_cube and nthr == 1):
        given = given[1:] if not as_cube else given[1:] if nthr > 1 else given
        o.raises((ValueError, iris.exceptions.ConstraintMismatchError), plugin, cube, given)
        return False
    before = o.snapshot(cube)
    res = plugin(cube, given)
    o.unchanged(before, cube)
    want = np.zeros_like(fc, dtype=float)
    for k in range(nthr):
        for p in range(n):
            curve = curves[k, p if point else 0]
            v = float(fc[k, p])
            if curve is None:
                want[k, p] = v
                continue
            xs, ys = curve
            if len(xs) == 2 or v < xs[1]:
                i = 0
            elif v >= xs[-2]:
                i = len(xs) - 2
            else:
                i = max(j for j in range(len(xs) - 1) if xs[j] <= v)
            want[k, p] = ys[i] + (v - xs[i]) * (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])
            want[k, p] = min(max(want[k, p], 0), 1)
    fixed = np.sort(want, axis=0)
    if above:
        fixed = fixed[::-1]
    got = res.data
    if res.coord_dims("air_temperature"):
        got = np.moveaxis(got, res.coord_dims("air_temperature")[0], 0)
    else:
        o.equal(nthr, 1, "thresholds when the coordinate is scalar")
        got = got[None]
    got = got.reshape(nthr, n)
    if mask is not None:
        o.close_masked(got, fixed, np.broadcast_to(mask, fixed.shape), "calibrated", atol=2e-6)
    else:
        o.check(not np.ma.is_masked(got), "masked without cause")
        o.close(got, fixed, "calibrated", atol=2e-6)
    o.within(np.ma.getdata(got), 0, 1, "calibrated", 0)
    o.equal(res.dtype, np.float32, "type")
    o.equal(res.name(), cube.name(), "name")
    o.equal(res.attributes["title"], "Post-Processed A title", "title")
    o.close(res.coord("air_temperature").points, thr, "thresholds")
    for nm in ("time", "forecast_period", "forecast_reference_time"):
        o.same_coord(res.coord(nm), cube.coord(nm), nm)
    o.same_coord(res.coord(axis="y"), cube.coord(axis="y"), "y")
    o.same_coord(res.coord(axis="x"), cube.coord(axis="x"), "x")
    if np.abs(fixed - want).max() > 1e-6:
        o.label("sorted")
    return any(v is not None for v in curves.values()) and np.abs(want - fc).max() > 1e-3


SUBS = {"construct": Sub(gen_construct, run_construct, 4),
        "aggregate": Sub(gen_aggregate, run_aggregate, 2),
        "manipulate": Sub(gen_manipulate, run_manipulate, 4),
        "apply": Sub(gen_apply, run_apply, 4)}
