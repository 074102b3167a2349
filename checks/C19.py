"""C19: ensemble model output statistics: scores, estimation and application."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: coefficients, forecasts and truths for which the continuous ranked probability "
        "score is integrated numerically; small training histories on grids and sites with "
        "unmatched times, land masks and extra predictors; forecasts of all three kinds calibrated "
        "with generated coefficients; non-trivial when the spread is positive and the coefficients "
        "change the forecast")
QUICK = 1700
THOROUGH = 16000
T0 = 1510286400
DAY = 86400


def score(coefs, predictors, truth, var, distribution, squared):
    """Mean score by numerical integration; predictors (k, n), truth (n), var (n)."""
    from scipy.stats import norm

    beta = np.asarray(coefs[1:-2], float)
    if squared:
        beta = beta * beta
    mu = coefs[0] + (beta[:, None] * predictors).sum(axis=0)
    sd = np.sqrt(coefs[-2] ** 2 + coefs[-1] ** 2 * var)
    if not (sd > 0).all():
        return np.inf
    lo, hi = mu - 9 * sd, mu + 9 * sd
    if distribution == "truncnorm":
        lo = np.maximum(lo, 0)
        hi = np.maximum(hi, lo + sd)

    def cdf(y):
        p = norm.cdf((y - mu) / sd)
        if distribution == "truncnorm":
            p0 = norm.cdf(-mu / sd)
            p = np.where(y < 0, 0, (p - p0) / (1 - p0))
        return p

    s = np.linspace(0, 1, 1501)[:, None]
    total = np.zeros(len(truth))
    cut = np.clip(truth, lo, hi)
    for a, b, below in ((lo, cut, True), (cut, hi, False)):
        y = a + s * (b - a)
        f = cdf(y) ** 2 if below else (1 - cdf(y)) ** 2
        total += np.trapz(f, dx=1 / 1500., axis=0) * (b - a)
    total += np.where(truth > hi, truth - hi, 0) + np.where(truth < lo, lo - truth, 0)
    return np.mean(total)


# ---------------------------------------------------------------- the score
def gen_score():
    from vp import gens as g

    @g.composite
    def case(draw):
        n, k = draw(g.integers(1, 4)), draw(g.sampled([1, 1, 2, 3]))
        dist = draw(g.sampled(["norm", "truncnorm"]))
        return {"dist": dist, "predictor": draw(g.sampled(["mean", "realizations"])), "n": n,
                "k": k, "alpha": draw(g.grid_ints(-2, 2, 0.25)),
                "beta": draw(g.fixed(k, g.grid_ints(0.25, 1.25, 0.125))),
                "gamma": draw(g.grid_ints(-2, 2, 0.25)), "delta": draw(g.grid_ints(-2, 2, 0.25)),
                "fc": draw(g.fixed(n * k, g.grid_ints(0, 12, 0.25))),
                "truth": draw(g.fixed(n, g.grid_ints(0, 12, 0.25))),
                "var": draw(g.fixed(n, g.grid_ints(0.25, 6, 0.25)))}

    return case()


def run_score(case):
    from improver.calibration.ensemble_calibration import (
        ContinuousRankedProbabilityScoreMinimisers as Plugin,
    )

    n, k = case["n"], case["k"]
    fc = np.array(case["fc"], float).reshape(n, k)
    truth, var = np.array(case["truth"], float), np.array(case["var"], float)
    coefs = [case["alpha"]] + case["beta"] + [case["gamma"], case["delta"]]
    squared = case["predictor"] == "realizations"
    beta = np.array(case["beta"]) ** (2 if squared else 1)
    mu = case["alpha"] + fc.dot(beta)
    sd = np.sqrt(case["gamma"] ** 2 + case["delta"] ** 2 * var)
    if not (sd > 0.1).all():
        o.reject()
    if case["dist"] == "truncnorm" and (mu / sd < -3).any():
        o.reject()
    plugin = Plugin(case["predictor"])
    func = plugin.minimisation_dict[case["dist"]]
    got = func(np.array(coefs), fc if k > 1 or squared else fc[:, 0], truth, var,
               np.sqrt(np.pi))
    want = score(coefs, fc.T, truth, var, case["dist"], squared)
    o.close(got, want, "score", rtol=2e-4, atol=2e-4)
    return True


# ---------------------------------------------------------------- estimation
def gen_estimate():
    from vp import gens as g

    @g.composite
    def case(draw):
        spot = draw(g.booleans())
        ny, nx = (1, draw(g.integers(1, 3))) if spot else (draw(g.integers(1, 2)), 2)
        nt, nr = draw(g.integers(2, 4)), draw(g.integers(2, 3))
        n = nt * ny * nx
        return {
            "spot": spot, "ny": ny, "nx": nx, "nt": nt, "nr": nr,
            "dist": draw(g.sampled(["norm", "truncnorm"])),
            "predictor": draw(g.sampled(["mean", "mean", "realizations"])),
            "default": draw(g.booleans()), "point": draw(g.booleans()),
            "extra": draw(g.sampled([False, False, True])),
            "base": draw(g.fixed(n, g.grid_ints(2, 12, 0.25))),
            "spread": draw(g.fixed(n * nr, g.grid_ints(-2, 2, 0.25))),
            "error": draw(g.fixed(n, g.grid_ints(-2, 4, 0.25))),
            "field": draw(g.fixed(ny * nx, g.grid_ints(0, 3, 0.25))),
            "only": draw(g.fixed(nt, g.sampled(["both", "both", "both", "forecast",
                                                "truth"]))),
            "land": None if spot else draw(g.fixed(ny * nx, g.sampled([1, 1, 0]))),
            "units": draw(g.sampled([None, "m s-1", "km h-1"])),
            "order": draw(g.booleans()), "iterations": draw(g.sampled([30, 60])),
        }

    return case()


def grid_of(case):
    return {"kind": "laea", "ny": case["ny"], "nx": case["nx"], "dy": 2000, "dx": 2000, "y0": 0,
            "x0": 0}


def training(case, times, sel_y=slice(None), noise=False):
    """Forecast, truth, extra-field and land cubes; `noise` alters what must not matter."""
    from vp import cubes as c

    ny, nx, nt, nr = case["ny"], case["nx"], case["nt"], case["nr"]
    base = np.array(case["base"]).reshape(nt, ny, nx)
    spread = np.array(case["spread"]).reshape(nt, nr, ny, nx)
    fc = np.clip(base[:, None] + spread, 0, None).astype(np.float32)
    tr = np.clip(base + np.array(case["error"]).reshape(nt, ny, nx), 0, None).astype(np.float32)
    land = None
    if case["land"] and any(case["land"]) and not case["point"]:
        land = np.array(case["land"], bool).reshape(ny, nx)
        if land.all():
            land = None
    field = np.array(case["field"], np.float32).reshape(ny, nx)
    if noise and land is not None:
        fc[..., ~land] += 3
        tr[..., ~land] += 1
        field[~land] += 7
    spot = case["spot"]
    name = "wind_speed"

    def sites(a):
        return a[..., 0, :] if spot else a

    kw = dict(grid=None if spot else grid_of(case))
    use_f = [i for i in range(nt) if times[i] != "truth"]
    use_t = [i for i in range(nt) if times[i] != "forecast"]
    v = [T0 + DAY * i for i in range(nt)]
    fcube = c.history_cube(sites(fc[use_f]), name, "m s-1", [v[i] for i in use_f], 14400,
                           [c.realization_coord(range(nr))], **kw)
    if case["order"] or spot:
        fcube.transpose([1, 0] + list(range(2, fcube.ndim)))
    tcube = c.history_cube(sites(tr[use_t]), name, "m s-1", [v[i] for i in use_t], 14400, [],
                           truth=True, **kw)
    extra = None
    if case["extra"] and case["predictor"] == "mean":
        if spot:
            extra = c.spot_cube(field[0], "roughness_length", "m", nx)
        else:
            extra = c.new_cube(field, "roughness_length", "m", c.yx_coords(grid_of(case)))
    lcube = None
    if land is not None:
        lcube = c.new_cube(land.astype(np.int8), "land_binary_mask", "1",
                           c.yx_coords(grid_of(case)))
    used = [i for i in use_f if i in use_t]
    return fcube, tcube, extra, lcube, fc, tr, field, land, used, v


def coefficients(cubes, spot, point):
    """(coefficients, *space) array from the list of cubes."""
    out = []
    for name in ("alpha", "beta", "gamma", "delta"):
        (cube,) = [x for x in cubes if x.name() == "emos_coefficient_" + name]
        out.append(cube.data)
    nsp = (1 if spot else 2) if point else 0
    beta = out[1]
    if beta.ndim == out[0].ndim:
        beta = beta[None]
    return np.concatenate([[out[0]], beta, [out[2]], [out[3]]]), nsp


def run_estimate(case):
    import iris
    from improver.calibration.ensemble_calibration import (
        EstimateCoefficientsForEnsembleCalibration as Plugin,
    )

    only = case["only"]
    if sum(x == "both" for x in only) < 2:
        only = ["both"] * case["nt"]
    spot, point, predictor = case["spot"], case["point"], case["predictor"]
    if spot and case["nx"] == 1 and point:
        o.reject()
    if point and not spot and (case["ny"] == 1 or predictor == "realizations"):
        o.reject()
    fcube, tcube, extra, lcube, fc, tr, field, land, used, v = training(case, only)
    snaps = [(x, o.snapshot(x)) for x in (fcube, tcube)]
    unit = "m s-1" if extra is not None else case["units"]
    args = dict(point_by_point=point, use_default_initial_guess=case["default"],
                predictor=predictor, max_iterations=case["iterations"],
                desired_units=unit)
    plugin = Plugin(case["dist"], **args)
    res = plugin(fcube, tcube, None if extra is None else iris.cube.CubeList([extra]), lcube)
    for x, s in snaps:
        o.unchanged(s, x)
    got, nsp = coefficients(res, spot, point)

    # metadata
    o.equal([x.name() for x in res], ["emos_coefficient_" + s for s in (
        "alpha", "beta", "gamma", "delta")], "cubes")
    runs = [v[i] - 14400 for i in used]
    unit = unit or "m s-1"
    for x in res:
        o.equal(x.attributes["diagnostic_standard_name"], "wind_speed", "diagnostic")
        o.equal(x.attributes["distribution"], case["dist"], "distribution")
        o.check(("shape_parameters" in x.attributes) == (case["dist"] == "truncnorm"), "shape")
        o.equal(int(x.coord("forecast_reference_time").points[0]), max(runs), "run")
        o.equal([int(b) for b in x.coord("forecast_reference_time").bounds[0]],
                [min(runs), max(runs)], "runs")
        o.equal(int(x.coord("forecast_period").points[0]), 14400, "period")
        o.equal(str(x.units), unit if x.name()[-5:] in ("alpha", "gamma") else "1", "units")
        for a in "yx":
            have, c0 = x.coord(axis=a), fcube.coord(axis=a)
            if point:
                o.close(have.points, c0.points, a)
            else:
                o.equal(have.shape, (1,), "length of " + a)
                if not spot:
                    o.close(have.bounds[0], [c0.points.min(), c0.points.max()], a)
    names = res[1].coord("predictor_name").points.tolist()
    o.equal(names, ["wind_speed"] + (["roughness_length"] if extra is not None else []),
            "predictors")

    # the score is no worse than with the documented first guess
    factor = 3.6 if unit == "km h-1" else 1.0
    f = fc[used].astype(float) * factor
    t = tr[used].astype(float) * factor
    var = f.var(axis=1, ddof=1)
    if predictor == "mean":
        preds = [f.mean(axis=1)]
        if extra is not None:
            preds.append(np.broadcast_to(field.astype(float), t.shape))
    else:
        preds = [f[:, r] for r in range(case["nr"])]
    preds = np.array(preds)                                  # k, t, y, x
    squared = predictor == "realizations"
    k = len(preds)
    ny, nx = case["ny"], case["nx"]
    groups = ([(y, x) for y in range(ny) for x in range(nx)] if point else [None])
    interesting = False
    for gr in groups:
        if gr is None:
            w = np.ones((ny, nx), bool) if land is None else land
            p, tt, vv = preds[..., w].reshape(k, -1), t[..., w].ravel(), var[..., w].ravel()
            co = got if nsp == 0 else None
        else:
            y, x = gr
            p, tt, vv = preds[..., y, x], t[..., y, x], var[..., y, x]
            co = got[:, x] if spot else got[:, y, x]
        co = np.asarray(co, float).ravel()
        o.equal(len(co), k + 3, "number of coefficients")
        o.check(np.isfinite(co).all(), "coefficients %s", co)
        if not (vv > 0).all():
            continue
        if case["default"]:
            b = [np.sqrt(1 / k)] * k if squared else [1.0 / k] * k
            guess = [0] + b + [0, 1]
        else:
            a = np.column_stack([np.ones(len(tt))] + list(p))
            sol = np.linalg.pinv(a).dot(tt)
            guess = [sol[0]] + list(sol[1:]) + [0, 1]
        sq = score(guess, p, tt, vv, case["dist"], squared)
        got_score = score(co, p, tt, vv, case["dist"], squared)
        if not np.isfinite(sq):
            continue
        if case["dist"] == "truncnorm":
            def ratio(cc):
                bb = np.array(cc[1:-2]) ** (2 if squared else 1)
                return (cc[0] + bb.dot(p)) / np.sqrt(cc[-2] ** 2 + cc[-1] ** 2 * vv)
            if ratio(guess).min() < -2 or ratio(co).min() < -2:
                continue                    # far tail: the closed form loses accuracy
        if np.sqrt(co[-2] ** 2 + co[-1] ** 2 * vv).min() < 1e-3:
            continue
        o.check(got_score <= sq * (1 + 1e-3) + 1e-3,
                "the score %s with the estimated coefficients %s exceeds %s of the first guess %s",
                got_score, co, sq, guess)
        interesting = True

    # unmatched times and sea points have no influence
    if "forecast" in only or "truth" in only or land is not None:
        o.label("relation")
        less = [x if x == "both" else None for x in only]
        sub = dict(case)
        keep = [i for i in range(case["nt"]) if less[i]]
        for key, m in (("base", 1), ("error", 1), ("spread", case["nr"])):
            a = np.array(case[key]).reshape(case["nt"], m * ny * nx)
            sub[key] = a[keep].ravel().tolist()
        sub["nt"] = len(keep)
        f2, t2, e2, l2 = training(sub, ["both"] * len(keep), noise=True)[:4]
        for cube in (f2, t2):
            tcs = [v[i] for i in keep]
            lag = 14400 if cube is f2 else 0
            cube.coord("time").points = np.array(tcs, np.int64)
            cube.coord("forecast_reference_time").points = np.array(tcs, np.int64) - lag
        again = Plugin(case["dist"], **args)(
            f2, t2, None if e2 is None else iris.cube.CubeList([e2]), l2)
        o.close(coefficients(again, spot, point)[0], got,
                "coefficients when unmatched times and sea points are altered", rtol=1e-3,
                atol=1e-4)
    return interesting


# ---------------------------------------------------------------- application
def gen_apply():
    from vp import gens as g

    @g.composite
    def case(draw):
        spot = draw(g.booleans())
        ny, nx = (1, draw(g.integers(2, 4))) if spot else (draw(g.integers(2, 3)),
                                                           draw(g.integers(2, 3)))
        nr, n = draw(g.integers(2, 4)), ny * nx
        predictor = draw(g.sampled(["mean", "mean", "realizations"]))
        extra = draw(g.booleans()) and predictor == "mean"
        point = draw(g.booleans()) and (spot or predictor == "mean")
        k = nr if predictor == "realizations" else 1 + extra
        m = n if point else 1
        return {
            "spot": spot, "ny": ny, "nx": nx, "nr": nr, "predictor": predictor, "extra": extra,
            "point": point, "k": k, "dist": draw(g.sampled(["norm", "truncnorm"])),
            "kind": draw(g.sampled(["realizations", "realizations", "percentiles",
                                    "probabilities"])),
            "fc": draw(g.fixed(n, g.lists(g.grid_ints(2, 14, 0.25), min_size=nr, max_size=nr,
                                          unique=True))),
            "field": draw(g.fixed(n, g.grid_ints(0, 3, 0.25))),
            "alpha": draw(g.fixed(m, g.grid_ints(-1, 2, 0.25))),
            "beta": draw(g.fixed(m * k, g.grid_ints(0.5, 1.25, 0.125))),
            "gamma": draw(g.fixed(m, g.grid_ints(-1, 1.5, 0.25))),
            "delta": draw(g.fixed(m, g.grid_ints(0.25, 1.5, 0.25))),
            "land": draw(g.mask([ny, nx])), "template": draw(g.integers(0, 3)) == 0,
            "percentiles": draw(g.sampled([None, [10, 50, 90], [25.0]])),
            "relative": draw(g.sampled(["above", "below"])),
            "probs": draw(g.fixed(n, g.lists(g.grid_ints(0, 1, 0.125), min_size=3,
                                             max_size=3))),
            "mismatch": draw(g.sampled([None] * 8 + ["period", "run", "name", "domain"])),
            "tolerate": draw(g.booleans()), "method": draw(g.booleans()),
            "lag": draw(g.sampled([0, 0, 1800, 3599])),
        }

    return case()


def run_apply(case):
    import iris
    from improver.calibration.ensemble_calibration import (
        ApplyEMOS,
        CalibratedForecastDistributionParameters,
        EstimateCoefficientsForEnsembleCalibration,
    )
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
        ConvertProbabilitiesToPercentiles,
    )
    from scipy.stats import norm, truncnorm
    from vp import cubes as c

    spot, ny, nx, nr, k = [case[x] for x in ("spot", "ny", "nx", "nr", "k")]
    n = ny * nx
    space = (n,) if spot else (ny, nx)
    fp = 14400
    unit = "m s-1"
    grid = grid_of(case)
    rel = case["relative"]

    def cube_of(data, name, units, lead, fp=fp, frt=T0, g=grid):
        scal = c.time_coords({"frt": frt, "fp": fp})
        if spot:
            return c.spot_cube(data, name, units, n, lead, scal)
        return c.new_cube(data, name, units, lead + c.yx_coords(g), scal)

    # coefficients, on a template history
    hist = c.history_cube(np.zeros((2, nr) + space, np.float32), "wind_speed", unit,
                          [T0 - 2 * DAY + fp, T0 - DAY + fp], fp,
                          [c.realization_coord(range(nr))], None if spot else grid)
    point = case["point"]
    m = n if point else 1
    co = np.concatenate([[case["alpha"]], np.array(case["beta"]).reshape(k, m),
                         [case["gamma"]], [case["delta"]]]).astype(np.float32)
    field = np.array(case["field"], np.float32).reshape(space)
    preds = iris.cube.CubeList([hist])
    extra = None
    if case["extra"]:
        extra = c.spot_cube(field, "roughness_length", "m", n) if spot else c.new_cube(
            field, "roughness_length", "m", c.yx_coords(grid))
        preds.append(extra)
    est = EstimateCoefficientsForEnsembleCalibration(
        case["dist"], point_by_point=point, predictor=case["predictor"])
    shaped = co.reshape((k + 3,) + space) if point else co[:, 0]
    coefs = est.create_coefficients_cubelist(shaped, hist, preds)

    # forecast
    raw = np.array(case["fc"], np.float32).T.reshape((nr,) + space)
    kind = case["kind"]
    count = None
    frt = T0 - 0
    wrong = case["mismatch"]
    if wrong == "domain" and spot:
        wrong = None
    kw = {"fp": fp - case["lag"], "frt": frt + case["lag"]}
    if case["lag"] and case["lag"] < 3600:
        kw["frt"] = T0                        # same hour of the run, earlier within the hour
    if wrong == "period":
        kw["fp"] = fp + 3600
    if wrong == "run":
        kw["frt"] = T0 + 3600
    if wrong == "domain":
        kw["g"] = dict(grid, x0=2000)
    name = "air_temperature" if wrong == "name" else "wind_speed"
    units = unit
    thr = [4.0, 7.0, 11.0]
    if kind == "realizations":
        fcube = cube_of(raw, name, units, [c.realization_coord(range(nr))], **kw)
    elif kind == "percentiles":
        raw = np.sort(raw, axis=0)
        levels = [100.0 * (i + 1) / (nr + 1) for i in range(nr)]
        fcube = cube_of(raw, name, units, [c.percentile_coord(levels)], **kw)
        count = nr
    else:
        pr = np.sort(np.array(case["probs"], np.float32).T.reshape((3,) + space), axis=0)
        if rel == "above":
            pr = pr[::-1].copy()
        fcube = cube_of(pr, "probability_of_%s_%s_threshold" % (name, rel), "1",
                        [c.threshold_coord(thr, name, unit, rel)], **kw)
        count = nr
    if case["method"]:
        fcube.add_cell_method(iris.coords.CellMethod("maximum", coords="time"))
    land = None
    if not spot and case["land"] is not None and not all(case["land"]):
        land = ~np.array(case["land"], bool).reshape(ny, nx)
    template = None
    if case["template"] and land is None and kind != "probabilities":
        template = cube_of(np.zeros((3,) + space, np.float32),
                           "probability_of_%s_%s_threshold" % (name, rel), "1",
                           [c.threshold_coord(thr, name, unit, rel)], **kw)
    lcube = None if land is None else c.new_cube(
        land.astype(np.int8), "land_binary_mask", "1", c.yx_coords(grid))
    pct = case["percentiles"]
    if pct and land is not None:
        pct = None
    plugin = ApplyEMOS(percentiles=pct)
    before = o.snapshot(fcube)
    call = lambda f, e: plugin(  # noqa: E731
        f, coefs, None if e is None else iris.cube.CubeList([e]), land_sea_mask=lcube,
        prob_template=template, realizations_count=count,
        tolerate_time_mismatch=case["tolerate"], predictor=case["predictor"])
    if wrong and not (case["tolerate"] and wrong in ("period", "run")):
        o.raises(ValueError, call, fcube, extra)
        return False
    res = call(fcube, extra)
    o.unchanged(before, fcube)

    # the calibrated distribution
    if kind == "probabilities":
        members = ConvertProbabilitiesToPercentiles(ecc_bounds_warning=True)(
            fcube.copy(), no_of_percentiles=nr).data
    else:
        members = raw
    members = members.astype(float)
    cc = co.reshape((k + 3,) + (space if point else (1,) * len(space))).astype(float)
    loc = np.zeros(space) + cc[0]
    if case["predictor"] == "mean":
        loc = loc + cc[1] * members.mean(axis=0)
        if extra is not None:
            loc = loc + cc[2] * field
    else:
        for r in range(nr):
            loc = loc + cc[1 + r] ** 2 * members[r]
    sd = np.sqrt(cc[-2] ** 2 + cc[-1] ** 2 * members.var(axis=0, ddof=1))
    if (sd < 1e-2).any():
        o.reject()
    if case["dist"] == "truncnorm":
        if (loc / sd < -3).any():
            o.reject()
        dist = truncnorm((0 - loc) / sd, np.inf, loc=loc, scale=sd)
    else:
        dist = norm(loc=loc, scale=sd)

    out = "probabilities" if template is not None else kind
    if out == "probabilities":
        want = np.array([dist.sf(t) if rel == "above" else dist.cdf(t) for t in thr])
        tol = 2e-3 if case["dist"] == "truncnorm" else 2e-5
    else:
        levels = [float(p) for p in pct] if pct and out == "percentiles" else [
            100.0 * (i + 1) / (nr + 1) for i in range(nr)]
        want = np.array([dist.ppf(p / 100) for p in levels])
        tol = 2e-3
        if out == "realizations":
            rank = members.argsort(axis=0).argsort(axis=0)
            want = np.take_along_axis(want, rank, axis=0)
    if land is not None:
        want = np.where(land, want, np.ma.getdata(fcube.data))
    o.check(not np.ma.is_masked(res.data), "the result is masked")
    got = np.ma.getdata(res.data)
    if got.ndim < want.ndim:
        got = got[None]
    o.close(got, want, "calibrated " + out, rtol=1e-4, atol=tol)
    o.equal(res.dtype, np.float32, "type")
    lead = {"probabilities": "wind_speed", "percentiles": "percentile",
            "realizations": "realization"}[out]
    if out == "percentiles":
        o.close(res.coord(lead).points, levels, "percentiles", rtol=1e-4)
    else:
        o.close(res.coord(lead).points, thr if out == "probabilities" else range(nr), lead)
    ref = template if template is not None else fcube
    o.equal(res.name(), ref.name(), "name")
    o.equal(str(res.units), str(ref.units), "units")
    for nm in ("time", "forecast_period", "forecast_reference_time"):
        o.same_coord(res.coord(nm), fcube.coord(nm), nm)
    if case["method"] and template is None:
        o.check(res.cell_methods, "the cell method is lost")
    if not spot:
        o.same_coord(res.coord(axis="y"), fcube.coord(axis="y"), "y")

    if land is None and kind == "realizations":
        a, b = CalibratedForecastDistributionParameters(case["predictor"])(
            fcube, coefs, None if extra is None else iris.cube.CubeList([extra]),
            tolerate_time_mismatch=case["tolerate"])
        o.close(a.data, loc, "location", rtol=1e-5, atol=1e-5)
        o.close(b.data, sd, "scale", rtol=1e-5, atol=1e-5)
        o.equal(a.name(), "location_parameter", "name")
        o.equal(b.name(), "scale_parameter", "name")
    return True


# ---------------------------------------------------------------- matching and shaping of pairs
def gen_match():
    from vp import gens as g

    @g.composite
    def case(draw):
        n, m, ny, nx = (draw(g.integers(1, 4)), draw(g.integers(1, 4)), draw(g.integers(1, 3)),
                        draw(g.integers(1, 3)))
        nf = draw(g.lists(g.integers(0, 5), min_size=n, max_size=n, unique=True))
        nt = draw(g.lists(g.integers(0, 5), min_size=m, max_size=m, unique=True))
        return {"ny": ny, "nx": nx, "tf": sorted(nf), "tt": sorted(nt),
                "real": draw(g.sampled([0, 0, 2])), "order": draw(g.permutation(4)),
                "nan": draw(g.fixed(n * ny * nx, g.sampled([0, 0, 1]))),
                "allnan": draw(g.fixed(n, g.integers(0, 4))),
                "pf": draw(g.sampled([None, None, 3600])),
                "pt": draw(g.sampled(["same", "same", "same", "same", 7200, None])),
                "masks": draw(g.fixed(3, g.mask([ny, nx]))), "vary": draw(g.booleans()),
                "frts": draw(g.fixed(3, g.integers(0, 5))),
                "fb": draw(g.sampled([None, [[0, 2], [1, 4], [-1, 0]], [[-3, 5], [0, 1], [0, 0]]])),
                "ma": draw(g.integers(0, 600)), "mb": draw(g.integers(0, 600)),
                "ha": draw(g.integers(0, 23)), "dh": draw(g.sampled([0, 0, 0, 1])),
                "day": draw(g.integers(0, 2))}

    return case()


def run_match(case):
    from improver.calibration import utilities as u
    from iris.coords import AuxCoord
    from vp import cubes as c

    ny, nx, tf, tt = case["ny"], case["nx"], case["tf"], case["tt"]
    grid = {"kind": "laea", "ny": ny, "nx": nx, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}
    n, m, k = len(tf), len(tt), case["real"]
    f = np.arange(n * ny * nx, dtype=np.float32).reshape(n, ny, nx)
    f[np.array(case["nan"], bool).reshape(f.shape)] = np.nan
    for i, v in enumerate(case["allnan"]):
        if v == 0:
            f[i] = np.nan
    t = 1000 + np.arange(m * ny * nx, dtype=np.float32).reshape(m, ny, nx)
    lead = []
    fd = f
    if k:
        fd, lead = np.stack([f, f + 0.5], 1), [c.realization_coord([0, 1])]
    pf = case["pf"]
    pt = pf if case["pt"] == "same" else case["pt"]
    if (pf is None) != (pt is None):
        o.reject("instantaneous forecasts of a period")
    order = [i for i in case["order"] if i < fd.ndim]
    fcube = c.history_cube(fd, "air_temperature", "K", [T0 + 3600 * i for i in tf], 14400, lead,
                           grid, period=pf, order=order)
    tcube = c.history_cube(t, "air_temperature", "K", [T0 + 3600 * i for i in tt], 0, [], grid,
                           truth=True, period=pt)
    fb, tb = o.snapshot(fcube), o.snapshot(tcube)
    alike = pf == pt
    use = [i for i in tf if i in tt and alike and not np.isnan(f[tf.index(i)]).all()]
    if not use:
        o.raises(ValueError, u.filter_non_matching_cubes, fcube, tcube)
    else:
        a, b = u.filter_non_matching_cubes(fcube, tcube)
        for cube, full, times, name in ((a, fcube, tf, "forecast"), (b, tcube, tt, "truth")):
            o.equal([int(v) for v in cube.coord("time").points],
                    [T0 + 3600 * i for i in use], "times of the " + name)
            want = full.data
            (ax,) = full.coord_dims("time")
            want = np.take(want, [times.index(i) for i in use], ax)
            if len(use) == 1:
                want = np.squeeze(want, ax)
            got = cube.data
            if len(use) == 1 and cube.coord_dims("time"):
                got = np.squeeze(got, cube.coord_dims("time")[0])
            o.equal(got.shape, want.shape, "shape of the " + name)
            o.close(got, want, "matched " + name)
            o.equal([int(v) for v in cube.coord("forecast_reference_time").points],
                    [T0 + 3600 * i - (14400 if name == "forecast" else 0) for i in use],
                    "runs of the " + name)
    o.unchanged(fb, fcube)
    o.unchanged(tb, tcube, "truth")

    # one run time that covers them all
    pts = T0 + 3600 * np.array(sorted(set(case["frts"])), np.int64)
    bnds = None
    if case["fb"] is not None:
        bnds = pts[:, None] + 3600 * np.array(case["fb"][:len(pts)], np.int64)
    coord = AuxCoord(pts, standard_name="forecast_reference_time", units=c.TIME_UNIT,
                     bounds=bnds)
    one = u.create_unified_frt_coord(coord)
    every = pts if bnds is None else np.concatenate([pts, bnds.ravel()])
    o.equal([int(v) for v in one.points], [int(pts.max())], "single run time")
    o.equal(np.asarray(one.bounds).tolist(), [[int(every.min()), int(every.max())]], "its range")

    # arrays with only their valid values
    stack = 100 * np.arange(1, 4, dtype=np.float32)[:, None, None] + np.arange(
        ny * nx, dtype=np.float32).reshape(ny, nx)
    masks = np.zeros(stack.shape, bool)
    for i in range(3):
        mk = case["masks"][i if case["vary"] else 0]
        if mk is not None:
            masks[i] = np.array(mk, bool).reshape(ny, nx)
    arr = np.ma.masked_array(stack, masks) if masks.any() else stack
    o.equal(np.asarray(u.flatten_ignoring_masked_data(arr if not (masks != masks[:1]).any()
                                                      else arr[0])).tolist(),
            (stack[~masks] if not (masks != masks[:1]).any() else stack[0][~masks[0]]).tolist(),
            "valid values")
    if (masks != masks[:1]).any():
        o.raises(ValueError, u.flatten_ignoring_masked_data, arr, True)
    elif not masks.all():
        flat = u.flatten_ignoring_masked_data(arr, True)
        o.equal(np.asarray(flat).tolist(), [stack[i][~masks[i]].tolist() for i in range(3)],
                "valid values by slice")

    # forecasts and coefficients are for the same hour and lead time
    def at(hour, minutes, day=0):
        frt = T0 - T0 % DAY + DAY * day + 3600 * hour
        return c.new_cube(np.zeros((1, 1), np.float32), "air_temperature", "K",
                          c.yx_coords(dict(grid, ny=1, nx=1)),
                          c.time_coords({"frt": frt, "fp": 60 * minutes}))

    hb = (case["ha"] + case["dh"]) % 24
    first, second = at(case["ha"], case["ma"]), at(hb, case["mb"], case["day"])
    same = -(-case["ma"] // 60) == -(-case["mb"] // 60) and not case["dh"]
    if same:
        u.forecast_coords_match(first, second)
    else:
        o.raises(ValueError, u.forecast_coords_match, first, second)

    # calibrated land, raw sea
    mask = masks[0]
    raw = c.new_cube(stack[0] + 0.5, "air_temperature", "K", c.yx_coords(grid))
    cal = c.new_cube(np.ma.masked_array(stack[0].copy(), mask) if mask.any() or case["vary"] else
                     stack[0].copy(), "air_temperature", "K", c.yx_coords(grid))
    u.merge_land_and_sea(cal, raw)
    o.close(np.ma.filled(cal.data, -1), np.where(mask, stack[0] + 0.5, stack[0]), "land and sea")
    o.check(not np.ma.is_masked(cal.data), "masked points are left")
    o.label("matched%d" % len(use), "bounds" if pf else "points", "same lead" if same else "",
            "masks differ" if (masks != masks[:1]).any() else "")
    return bool(use) and len(use) < max(n, m)


SUBS = {"score": Sub(gen_score, run_score, 4),
        "estimate": Sub(gen_estimate, run_estimate, 2),
        "apply": Sub(gen_apply, run_apply, 6),
        "match": Sub(gen_match, run_match, 3)}
