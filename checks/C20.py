"""C20: bias correction, height rescaling and the sorting of calibration inputs."""
import sys

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: histories of forecasts and truths with masks, unmatched times and single-member "
        "dimensions; forecasts with one to three bias cubes, bounds and masks; heights with "
        "bounds, zeros and missing sites; rescaling tables over hours and periods; input lists in "
        "any order; non-trivial when the result differs from the input or the case must be refused")
QUICK = 3000
THOROUGH = 40000
T0 = 1510286400
DAY = 86400


def space_cube(case, data, name, units, lead, scal, attributes=None):
    from vp import cubes as c

    if case["spot"]:
        return c.spot_cube(data, name, units, case["nx"], lead, scal, attributes)
    grid = {"kind": "laea", "ny": case["ny"], "nx": case["nx"], "dy": 2000, "dx": 2000, "y0": 0,
            "x0": 0}
    return c.new_cube(data, name, units, lead + c.yx_coords(grid), scal, attributes)


# ---------------------------------------------------------------- estimating a bias
def gen_bias():
    from vp import gens as g

    @g.composite
    def case(draw):
        spot = draw(g.booleans())
        ny, nx = (1, draw(g.integers(1, 4))) if spot else (draw(g.integers(1, 3)),
                                                           draw(g.integers(1, 3)))
        nt = draw(g.integers(1, 4))
        n = nt * ny * nx
        return {"spot": spot, "ny": ny, "nx": nx, "nt": nt,
                "fc": draw(g.fixed(n, g.grid_ints(270, 290, 0.25))),
                "tr": draw(g.fixed(n, g.grid_ints(270, 290, 0.25))),
                "fmask": draw(g.mask([nt, ny, nx])), "tmask": draw(g.mask([nt, ny, nx])),
                "lead": draw(g.sampled([None, None, "realization", "percentile"])),
                "only": draw(g.fixed(nt, g.sampled(["both", "both", "both", "forecast",
                                                    "truth"]))),
                "bad": draw(g.sampled([None] * 8 + ["members", "probability", "none"]))}

    return case()


def run_bias(case):
    from improver.calibration.simple_bias_correction import CalculateForecastBias
    from vp import cubes as c

    spot, ny, nx, nt = [case[k] for k in ("spot", "ny", "nx", "nt")]
    shape = [nt, nx] if spot else [nt, ny, nx]
    fc = np.array(case["fc"], np.float32).reshape(shape)
    tr = np.array(case["tr"], np.float32).reshape(shape)
    fm, tm = [np.zeros(shape, bool) if m is None else np.array(m, bool).reshape(shape)
              for m in (case["fmask"], case["tmask"])]
    only, bad = case["only"], case["bad"]
    if bad == "none":
        only = ["forecast"] * (nt - 1) + ["truth"]
        if nt == 1:
            o.reject()
    elif not any(x == "both" for x in only):
        only = ["both"] * nt
    fi = [i for i in range(nt) if only[i] != "truth"]
    ti = [i for i in range(nt) if only[i] != "forecast"]
    use = [i for i in fi if i in ti]
    times = [T0 + DAY * i for i in range(nt)]
    grid = None if spot else {"kind": "laea", "ny": ny, "nx": nx, "dy": 2000, "dx": 2000,
                              "y0": 0, "x0": 0}

    def build(a, m, masked, idx, truth):
        a = a[idx]
        if masked:
            a = np.ma.masked_array(a, m[idx])
        lead = []
        name = "air_temperature"
        if not truth and (case["lead"] or bad in ("members", "probability")):
            a = a[:, None]
            kind = case["lead"] or "realization"
            if bad == "members":
                a = (np.ma if masked else np).concatenate([a, a], axis=1)
            pts = list(range(a.shape[1]))
            lead = [c.realization_coord(pts) if kind == "realization" else
                    c.percentile_coord([50, 60][:len(pts)])]
            if bad == "probability":
                lead = [c.threshold_coord([280], "air_temperature", "K")]
                name = "probability_of_air_temperature_above_threshold"
        return c.history_cube(a, name, "K", [times[i] for i in idx], 14400, lead, grid,
                              truth=truth)

    fcube = build(fc, fm, case["fmask"] is not None, fi, False)
    tcube = build(tr, tm, case["tmask"] is not None, ti, True)
    if bad:
        o.raises(ValueError, CalculateForecastBias(), fcube, tcube)
        return True
    fb, tb = o.snapshot(fcube), o.snapshot(tcube)
    res = CalculateForecastBias()(fcube, tcube)
    o.unchanged(fb, fcube)
    o.unchanged(tb, tcube)
    ok = ~(fm | tm)[use]
    err = (fc.astype(float) - tr)[use]
    count = ok.sum(axis=0)
    want = np.where(ok, err, 0).sum(axis=0) / np.maximum(count, 1)
    gone = count == 0
    got = res.data
    if case["lead"] and got.ndim == want.ndim + 1:
        got = got[0]
    if gone.any():
        o.close_masked(got, want, gone, "bias", atol=2e-5)
    else:
        o.check(not np.ma.is_masked(got), "masked without cause")
        o.close(got, want, "bias", atol=2e-5)
    o.equal(res.shape[-1], nx, "shape of the cube")
    o.equal(res.dtype, np.float32, "type")
    o.equal(res.name(), "forecast_error_of_air_temperature", "name")
    o.equal(str(res.units), "K", "units")
    o.equal(res.attributes["title"], "Forecast bias data", "title")
    runs = [times[i] - 14400 for i in use]
    frt = res.coord("forecast_reference_time")
    o.equal(int(frt.points[0]), max(runs), "forecast reference time")
    if len(use) > 1:
        o.equal([int(b) for b in frt.bounds[0]], [min(runs), max(runs)], "runs")
    o.equal(int(res.coord("forecast_period").points[0]), 14400, "period")
    o.check(not res.coords("time"), "the bias has a validity time")
    return bool(np.abs(want).max() > 0)


# ---------------------------------------------------------------- removing a bias
def gen_apply():
    from vp import gens as g

    @g.composite
    def case(draw):
        spot = draw(g.integers(0, 3)) == 0
        ny, nx = (1, draw(g.integers(1, 4))) if spot else (draw(g.integers(1, 3)),
                                                           draw(g.integers(1, 3)))
        nr, k = draw(g.integers(1, 3)), draw(g.sampled([0, 1, 1, 1, 2, 3]))
        n = ny * nx
        return {"spot": spot, "ny": ny, "nx": nx, "nr": nr, "k": k,
                "fc": draw(g.fixed(nr * n, g.grid_ints(0, 20, 0.25))),
                "fmask": draw(g.mask([ny, nx])),
                "bias": draw(g.fixed(max(k, 1) * n, g.grid_ints(-8, 8, 0.25))),
                "bmask": draw(g.fixed(max(k, 1), g.mask([ny, nx]))),
                "use_bmask": draw(g.booleans()),
                "fill": draw(g.booleans()), "dim": draw(g.booleans()),
                "lower": draw(g.sampled([None, None, 0, 2.5])),
                "upper": draw(g.sampled([None, None, 15, 20.0])),
                "order": draw(g.integers(0, 5)), "aslist": draw(g.booleans()),
                "comment": draw(g.booleans()), "bounds": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 9 + ["hour", "period", "hours", "bounds",
                                                    "two"]))}

    return case()


def run_apply(case):
    import iris
    from improver.calibration.simple_bias_correction import ApplyBiasCorrection
    from vp import cubes as c

    spot, ny, nx, nr, k, bad = [case[x] for x in ("spot", "ny", "nx", "nr", "k", "bad")]
    space = [nx] if spot else [ny, nx]
    dim = case["dim"] or nr > 1
    fc = np.array(case["fc"], np.float32).reshape([nr] + space)
    fm = np.zeros(space, bool) if case["fmask"] is None else \
        np.array(case["fmask"], bool).reshape(space)
    data = fc if case["fmask"] is None else np.ma.masked_array(
        fc, np.broadcast_to(fm, fc.shape))
    attrs = {"title": "T", "source": "IMPROVER", "institution": "Met Office"}
    if case["comment"]:
        attrs["comment"] = "First"
    lead = [c.realization_coord(range(nr))]
    scal = c.time_coords({"frt": T0 + 5 * DAY, "fp": 14400})
    if not dim:
        data, lead, scal = data[0], [], scal + [lead[0][0]]
    fcube = space_cube(case, data, "wind_speed", "m s-1", lead, scal, attrs)
    bias = np.array(case["bias"], np.float32).reshape([max(k, 1)] + space)
    bm = np.zeros(bias.shape, bool)
    if case["use_bmask"]:
        for i, m in enumerate(case["bmask"]):
            if m is not None:
                bm[i] = np.array(m, bool).reshape(space)
    biases = []
    for i in range(k):
        frt = T0 + DAY * i
        if bad == "hour" or (bad == "hours" and i == 1):
            frt += 3600
        tc = c.time_coords({"frt": frt, "fp": 18000 if bad == "period" else 14400})[1:]
        if (k == 1 and case["bounds"]) or (bad == "bounds" and k > 1):
            tc[0].bounds = np.array([frt - DAY, frt], np.int64)
        d = np.ma.masked_array(bias[i], bm[i]) if case["use_bmask"] else bias[i]
        biases.append(space_cube(case, d, "forecast_error_of_wind_speed", "m s-1", [], tc))
    if bad == "hours" and k < 2 or bad == "bounds" and k < 2 or \
            bad in ("hour", "period") and k < 1:
        bad = None
    cubes = [fcube] + biases
    if bad == "two":
        cubes.append(fcube.copy())
    rot = case["order"] % len(cubes)
    cubes = cubes[rot:] + cubes[:rot]
    plugin = ApplyBiasCorrection(case["lower"], case["upper"], case["fill"])
    args = [iris.cube.CubeList(cubes)] if case["aslist"] else cubes
    if bad:
        o.raises(ValueError, plugin, *args)
        return True
    if k == 0:
        before = o.snapshot(fcube)
        res = plugin(*args)
        o.check("no calibration has been applied" in res.attributes["comment"], "no warning")
        o.equal(res.attributes["comment"].startswith("First"), case["comment"], "comment kept")
        res.attributes["comment"] = "First"
        if not case["comment"]:
            del res.attributes["comment"]
        o.unchanged(before, res, "uncorrected forecast")
        return True
    before = o.snapshot(fcube)
    res = plugin(*args)
    o.unchanged(before, fcube)
    ok = ~bm[:k]
    count = ok.sum(axis=0)
    mean = np.where(ok, bias[:k].astype(float), 0).sum(axis=0) / np.maximum(count, 1)
    lost = count == 0
    want = fc.astype(float) - mean
    gone = fm | (lost & (not case["fill"]))
    if case["lower"] is not None:
        want = np.maximum(want, case["lower"])
    if case["upper"] is not None:
        want = np.minimum(want, case["upper"])
    got = res.data
    if got.ndim == len(space):
        got = got[None]
    o.equal(got.shape, want.shape, "shape")
    if gone.any():
        o.close_masked(got, want, np.broadcast_to(gone, want.shape), "corrected", atol=1e-5)
    else:
        o.check(not np.ma.is_masked(got), "masked without cause")
        o.close(np.ma.getdata(got), want, "corrected", atol=1e-5)
    o.equal(res.dtype, np.float32, "type")
    o.equal(res.name(), "wind_speed", "name")
    o.equal(dict(res.attributes), dict(fcube.attributes), "attributes")
    for nm in ("time", "forecast_period", "forecast_reference_time", "realization"):
        o.same_coord(res.coord(nm), fcube.coord(nm), nm)
    return bool(np.abs(want - fc).max() > 0)


# ---------------------------------------------------------------- sorting of inputs
def gen_split():
    from vp import gens as g

    @g.composite
    def case(draw):
        return {"kind": draw(g.sampled(["truth", "coeffs", "time"])),
                "n": draw(g.integers(1, 3)), "m": draw(g.integers(1, 3)),
                "mask": draw(g.booleans()), "prob": draw(g.booleans()),
                "perm": draw(g.fixed(8, g.integers(0, 1000))),
                "extra": draw(g.integers(0, 2)), "template": draw(g.booleans()),
                "coef": draw(g.booleans()), "group": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 6 + ["truth", "forecast", "names", "masks",
                                                    "probs"])),
                "hour": draw(g.integers(0, 23)), "minute": draw(g.sampled([0, 0, 15, 30, 59])),
                "valid": draw(g.lists(g.sampled(["0000", "0300", "0315", "1200", "1230",
                                                 "2359"]), max_size=3)),
                "match": draw(g.booleans())}

    return case()


def run_split(case):
    import iris
    from improver.calibration import (
        split_forecasts_and_coeffs,
        split_forecasts_and_truth,
        validity_time_check,
    )
    from vp import cubes as c

    grid = {"kind": "laea", "ny": 1, "nx": 2, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}

    def cube(name, day=0, value=0, truth=False, thr=False, fp=14400):
        attrs = {"title": "T", "source": "IMPROVER", "institution": "Met Office",
                 "mosg__model_configuration": "uk_det" if truth else "uk_ens"}
        data = np.full((1, 2), value, np.float32)
        lead = []
        if thr:
            data = np.full((2, 1, 2), value, np.float32)
            lead = [c.threshold_coord([273, 280], "air_temperature", "K")]
            name = "probability_of_%s_above_threshold" % name
        return c.new_cube(data, name, "1" if thr else "K", lead + c.yx_coords(grid),
                          c.time_coords({"frt": T0 + DAY * day - (0 if truth else fp),
                                         "fp": 0 if truth else fp}), attrs)

    def static(name, value=1.0):
        return c.new_cube(np.full((1, 2), value, np.float32), name, "1", c.yx_coords(grid))

    def shuffled(xs):
        return [x for _, _, x in sorted(
            (case["perm"][i % 8], i, x) for i, x in enumerate(xs))]

    bad = case["bad"]
    if case["kind"] == "time":
        t = cube("air_temperature")
        sec = T0 - T0 % DAY + 3600 * case["hour"] + 60 * case["minute"]
        t.coord("time").points = np.array([sec], np.int64)
        text = "%02d%02d" % (case["hour"], case["minute"])
        valid = case["valid"] + ([text] if case["match"] else [])
        o.equal(validity_time_check(t, valid), text in valid, "validity time matches")
        return True
    if case["kind"] == "truth":
        n, m = case["n"], case["m"]
        if bad == "truth":
            m = 0
        if bad == "forecast":
            n = 0
        fcs = [cube("air_temperature", i, i + 1, thr=case["prob"]) for i in range(n)]
        trs = [cube("air_temperature", i, i + 11, True, thr=case["prob"]) for i in range(m)]
        items = fcs + trs
        mask = static("land_binary_mask") if case["mask"] else None
        if mask is not None:
            items.append(mask)
        if bad == "names":
            items += [static("a"), static("b")]
        if bad == "masks":
            items += [static("land_binary_mask"), static("land_binary_mask")]
        if mask is not None and n + m < 2:
            o.reject()
        if bad == "masks" and n + m < 3:
            o.reject()
        items = shuffled(items)
        attr = "mosg__model_configuration=uk_det"
        if bad in ("truth", "forecast", "masks", "names"):
            o.raises((IOError, ValueError), split_forecasts_and_truth, items, attr)
            return True
        f, t, lsm = split_forecasts_and_truth(items, attr)
        o.equal(lsm is None, mask is None, "a land mask is found")
        if mask is not None:
            o.equal(lsm.name(), "land_binary_mask", "land mask")
        for have, k, first in ((f, n, 1), (t, m, 11)):
            d = np.atleast_1d(have.coord("time").points)
            o.equal([int(x) for x in d], [T0 + DAY * i for i in range(k)], "times")
            ax = have.coord_dims("time")
            vals = [have.data.ravel()[0]] if not ax else [
                np.take(have.data, i, ax[0]).ravel()[0] for i in range(k)]
            o.equal([float(v) for v in vals], [float(first + i) for i in range(k)], "values")
        return n + m > 2
    # coefficients
    fname = "wind_speed"
    items = []
    forecast = cube(fname, thr=case["prob"] and not case["template"])
    items.append(forecast)
    template = None
    if case["template"]:
        template = cube(fname, thr=True)
        items.append(template)
    coefs = []
    if case["coef"]:
        coefs = [static("emos_coefficient_" + s) for s in ("alpha", "beta", "gamma", "delta")]
        items += coefs
    extra = [static(s) for s in ("roughness_length", "surface_altitude")[:case["extra"]]]
    items += extra
    mask = static("land_binary_mask") if case["mask"] else None
    if mask is not None:
        items.append(mask)
    refuse = False
    if bad == "forecast":
        items = [x for x in items if x is not forecast and x is not template]
        refuse = True
    if bad == "names":
        items.append(forecast.copy())
        refuse = True
    if bad == "probs":
        items += [cube("air_temperature", thr=True), cube("rainfall_rate", thr=True)]
        refuse = True
    items = shuffled(items)
    lists = [iris.cube.CubeList(items)] if case["group"] else [
        iris.cube.CubeList([x]) for x in items]
    if refuse:
        o.raises(ValueError, split_forecasts_and_coeffs, lists, "land_binary_mask")
        return True
    f, co, ex, lsm, tmp = split_forecasts_and_coeffs(lists, "land_binary_mask")
    o.check(f is forecast, "the forecast is %s", f)
    o.check(tmp is template, "the template is %s", tmp)
    o.check(lsm is mask, "the land mask is %s", lsm)
    o.equal(sorted(x.name() for x in co or []), sorted(x.name() for x in coefs), "coefficients")
    o.equal(sorted(x.name() for x in ex or []), sorted(x.name() for x in extra), "predictors")
    return len(items) > 1


# ---------------------------------------------------------------- height rescaling
class _Pandas:
    @staticmethod
    def Timedelta(hours):
        import datetime

        return datetime.timedelta(hours=hours)


def dz_module():
    """improver.calibration.dz_rescaling, with a stand-in for pandas.Timedelta if need be."""
    try:
        import pandas  # noqa: F401
    except ImportError:
        import types

        stub = types.ModuleType("pandas")
        stub.Timedelta = _Pandas.Timedelta
        sys.modules["pandas"] = stub
        try:
            from improver.calibration import dz_rescaling
        finally:
            del sys.modules["pandas"]
        return dz_rescaling
    from improver.calibration import dz_rescaling

    return dz_rescaling


def gen_dz():
    from vp import gens as g

    @g.composite
    def case(draw):
        n, nt = draw(g.integers(2, 5)), draw(g.integers(1, 3))
        return {"n": n, "nt": nt,
                "dz": draw(g.lists(g.grid_ints(-200, 200, 10), min_size=n, max_size=n,
                                   unique=True)),
                "fc": draw(g.fixed(n * nt, g.sampled([0, 1, 2, 2.5, 4, 5, 8]))),
                "tr": draw(g.fixed(n * nt, g.sampled([0, 1, 2, 2.5, 4, 5, 8]))),
                "lower": draw(g.sampled([None, None, -100, -50.0, "-150"])),
                "upper": draw(g.sampled([None, None, 100, 60.0])),
                "land": draw(g.booleans()), "similar": draw(g.booleans()),
                "fp": draw(g.sampled([3, 4, 6, 18])),
                "sites": draw(g.fixed(3, g.booleans())), "hour": draw(g.integers(0, 23)),
                "truth_more": draw(g.booleans())}

    return case()


def neighbour(methods, dz, ids):
    """A neighbour cube (method, attribute, site) in which one method has the given heights."""
    import iris
    from vp import cubes as c

    n = len(dz)
    data = np.zeros((len(methods), 3, n), np.float32)
    for i in range(len(methods)):
        data[i, 2] = np.array(dz) if i == len(methods) - 1 else 1000.0 + 7 * np.arange(n)
    lead = [iris.coords.DimCoord(np.arange(len(methods), dtype=np.int32), units="1",
                                 long_name="neighbour_selection_method"),
            iris.coords.DimCoord(np.arange(3, dtype=np.int32), units="1",
                                 long_name="grid_attributes")]
    cube = c.spot_cube(data, "grid_neighbours", "1", n, lead, [],
                       {"model_grid_hash": "123"}, wmo=ids)
    cube.add_aux_coord(iris.coords.AuxCoord(
        np.array(methods), long_name="neighbour_selection_method_name", units="no_unit"), 0)
    cube.add_aux_coord(iris.coords.AuxCoord(
        np.array(["x_index", "y_index", "vertical_displacement"]),
        long_name="grid_attributes_key", units="no_unit"), 1)
    return cube


def run_dz(case):
    from vp import cubes as c

    mod = dz_module()
    n, nt = case["n"], case["nt"]
    name = "nearest" + ("_land" if case["land"] else "") + (
        "_minimum_dz" if case["similar"] else "")
    methods = [m for m in ("nearest", "nearest_land", "nearest_minimum_dz",
                           "nearest_land_minimum_dz") if m != name][:2] + [name]
    ids = ["%05d" % (3000 + 5 * i) for i in range(n)]
    # the neighbour cube may have sites that the training data do not have
    extra_n = 2 if case["sites"][0] else 0
    nb_ids = ids + ["%05d" % (9000 + i) for i in range(extra_n)]
    dz_all = np.array(list(case["dz"]) + [37.0, -410.0][:extra_n])
    nb = neighbour(methods, dz_all, nb_ids)
    fc = np.array(case["fc"], np.float32).reshape(nt, n)
    tr = np.array(case["tr"], np.float32).reshape(nt, n)
    fp = case["fp"]
    v0 = T0 - T0 % DAY + 3600 * case["hour"]
    times = [v0 + DAY * i for i in range(nt)]
    # decoy percentiles on either side of the median
    f3 = np.stack([fc * 0.5 + 1, fc, fc * 3 + 1])
    fcube = c.history_cube(f3.transpose(1, 0, 2), "wind_speed", "m s-1", times, fp * 3600,
                           [c.percentile_coord([25, 50, 75])], wmo=ids, order=[1, 0, 2])
    keep = list(range(n))
    if case["sites"][1] and n > 3:
        keep = keep[1:]
    tt = times + ([times[-1] + DAY] if case["truth_more"] else [])
    trd = tr if not case["truth_more"] else np.concatenate([tr, tr[:1] + 3])
    tcube = c.history_cube(trd[:, keep], "wind_speed", "m s-1", tt, 0, [], truth=True,
                           wmo=[ids[i] for i in keep])
    lo = -np.inf if case["lower"] is None else float(case["lower"])
    hi = np.inf if case["upper"] is None else float(case["upper"])
    dz = np.array(case["dz"], float)
    ok = (fc != 0) & (tr != 0) & (dz >= lo) & (dz <= hi)
    use = np.zeros(n, bool)
    use[keep] = True
    ok &= use
    xs = np.broadcast_to(dz, fc.shape)[ok]
    if len(set(xs)) < 2:
        o.reject()
    ys = np.log(fc[ok].astype(float) / tr[ok])
    slope = ((xs - xs.mean()) * (ys - ys.mean())).sum() / ((xs - xs.mean()) ** 2).sum()
    want = np.exp(-slope * np.clip(dz_all, lo, hi))
    res = mod.EstimateDzRescaling(
        fp, dz_lower_bound=case["lower"], dz_upper_bound=case["upper"],
        land_constraint=case["land"], similar_altitude=case["similar"])(fcube, tcube, nb)
    o.close(res.data, want, "factors", rtol=2e-4, atol=1e-5)
    o.equal(res.name(), "scaled_vertical_displacement", "name")
    o.equal(str(res.units), "1", "units")
    o.equal(res.coord("wmo_id").points.tolist(), nb_ids, "sites")
    o.equal(int(res.coord("forecast_period").points[0]), fp * 3600, "period")
    o.equal(int(res.coord("forecast_reference_time_hour").points[0]),
            ((case["hour"] - fp) % 24) * 3600, "hour of the run")
    o.check("model_grid_hash" not in res.attributes, "grid hash kept")
    return bool(abs(slope) > 1e-6)


def gen_dz_apply():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.integers(1, 3))
        fps = sorted(draw(g.lists(g.sampled([3, 6, 9, 12, 18]), min_size=1, max_size=3,
                                  unique=True)))
        hours = sorted(draw(g.lists(g.sampled([0, 3, 9, 15, 21, 22, 23]), min_size=1,
                                    max_size=3, unique=True)))
        return {"n": n, "fps": fps, "hours": hours,
                "scale": draw(g.fixed(n * len(fps) * len(hours), g.grid_ints(0.5, 2, 0.125))),
                "fc": draw(g.fixed(2 * n, g.grid_ints(0, 10, 0.5))),
                "fp": draw(g.sampled([1, 3, 4, 6, 7, 12, 13, 18, 20])),
                "hour": draw(g.sampled([0, 1, 2, 3, 4, 8, 10, 14, 20, 21, 22, 23])),
                "leniency": draw(g.integers(0, 2)), "bad": draw(g.integers(0, 9)) == 0,
                "swap": draw(g.booleans())}

    return case()


def run_dz_apply(case):
    import iris
    from vp import cubes as c

    mod = dz_module()
    n, fps, hours = case["n"], case["fps"], case["hours"]
    sc = np.array(case["scale"], np.float32).reshape(len(fps), len(hours), n)
    cl = iris.cube.CubeList()
    for i, f in enumerate(fps):
        for j, h in enumerate(hours):
            cube = c.spot_cube(sc[i, j], "scaled_vertical_displacement", "1", n)
            cube.add_aux_coord(iris.coords.DimCoord(
                np.int32(f * 3600), standard_name="forecast_period", units="seconds"))
            cube.add_aux_coord(iris.coords.AuxCoord(
                np.int32(h * 3600), long_name="forecast_reference_time_hour",
                units="seconds"))
            cl.append(cube)
    table = cl.merge_cube()
    fc = np.array(case["fc"], np.float32).reshape(2, n)
    frt = T0 - T0 % DAY + 3600 * case["hour"]
    wmo = ["%05d" % (3000 + i) for i in range(n)]
    refuse = False
    if case["bad"]:
        if case["swap"] and n > 1:
            wmo = wmo[::-1]
        else:
            wmo[0] = "99999"
        refuse = True
    fcube = c.spot_cube(fc.copy(), "wind_speed", "m s-1", n, [c.percentile_coord([20, 50])],
                        c.time_coords({"frt": frt, "fp": 3600 * case["fp"]}), wmo=wmo)
    lags = sorted(range(-case["leniency"], case["leniency"] + 1), key=abs)
    found = [h for h in [(case["hour"] + d) % 24 for d in lags] if h in hours]
    plugin = mod.ApplyDzRescaling(frt_hour_leniency=case["leniency"])
    if refuse or not found:
        o.raises(ValueError, plugin, fcube, table)
        return True
    near = [d for d in lags if (case["hour"] + d) % 24 in hours]
    if len(near) > 1 and abs(near[0]) == abs(near[1]):
        o.reject()                                  # two hours equally near
    i = next((q for q, f in enumerate(fps) if f >= case["fp"]), len(fps) - 1)
    want = fc * sc[i, hours.index(found[0])]
    res = plugin(fcube, table)
    o.close(res.data, want, "rescaled")
    o.equal(res.name(), "wind_speed", "name")
    o.equal(str(res.units), "m s-1", "units")
    o.equal(int(res.coord("forecast_period").points[0]), 3600 * case["fp"], "period")
    return True


SUBS = {"bias": Sub(gen_bias, run_bias, 3),
        "apply": Sub(gen_apply, run_apply, 3),
        "split": Sub(gen_split, run_split, 2),
        "dz": Sub(gen_dz, run_dz, 2),
        "dz_apply": Sub(gen_dz_apply, run_dz_apply, 2)}
