"""C01: thresholding a diagnostic."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: cubes (spot or grid, up to 4 dimensions) of exact binary values with masks, "
        "1-4 thresholds in any order, all eight operators, hard / fuzzy-factor / "
        "fuzzy-bounds, optional unit conversion, collapse over realization or percentile; "
        "non-trivial when the expected probabilities are not all equal")
QUICK = 6000
THOROUGH = 60000

OPS = {
    ">": ("greater_than", np.greater), "gt": ("greater_than", np.greater),
    ">=": ("greater_than_or_equal_to", np.greater_equal),
    "ge": ("greater_than_or_equal_to", np.greater_equal),
    "<": ("less_than", np.less), "lt": ("less_than", np.less),
    "<=": ("less_than_or_equal_to", np.less_equal),
    "le": ("less_than_or_equal_to", np.less_equal),
}
# diagnostic, units, threshold units, (a, b): threshold value -> diagnostic units
UNITS = {
    "air_temperature": ("K", {None: (1, 0), "celsius": (1, 273.15), "K": (1, 0),
                              "fahrenheit": (5 / 9.0, 273.15 - 32 * 5 / 9.0)}),
    "wind_speed": ("m s-1", {None: (1, 0), "km h-1": (1 / 3.6, 0),
                             "knots": (1852 / 3600.0, 0)}),
    "cloud_area_fraction": ("1", {None: (1, 0), "%": (0.01, 0)}),
    "lwe_precipitation_rate": ("mm h-1", {None: (1, 0), "m s-1": (3.6e6, 0)}),
}
OFFSET = {"air_temperature": 280.0, "wind_speed": 0.0, "cloud_area_fraction": 0.0,
          "lwe_precipitation_rate": 0.0}


def gen():
    from vp import gens as g

    @g.composite
    def case(draw):
        name = draw(g.sampled(sorted(UNITS)))
        tunits = draw(g.sampled([None, None] + sorted(
            [u for u in UNITS[name][1] if u is not None])))
        layout = draw(g.sampled(["yx", "ryx", "ryx", "tyx", "rtyx", "spot", "rspot", "pyx"]))
        nr = draw(g.integers(1, 5))
        if layout == "pyx":
            nr = draw(g.sampled([1, 3, 4, 9]))
        grid = draw(g.xy_grid(1, 3))
        ns = draw(g.integers(1, 5))
        nt = draw(g.integers(1, 3))
        shape = {"yx": [grid["ny"], grid["nx"]], "ryx": [nr, grid["ny"], grid["nx"]],
                 "pyx": [nr, grid["ny"], grid["nx"]],
                 "tyx": [nt, grid["ny"], grid["nx"]],
                 "rtyx": [nr, nt, grid["ny"], grid["nx"]],
                 "spot": [ns], "rspot": [nr, ns]}[layout]
        step = draw(g.sampled([0.25, 0.5, 1.0]))
        span = draw(g.sampled([1, 4]))
        values = draw(g.field(shape, g.grid_ints(-span, span, step)))
        if layout == "pyx":
            # percentiles increase along the leading dimension
            k = len(values) // nr
            rows = [values[i * k:(i + 1) * k] for i in range(nr)]
            cols = [sorted(r[j] for r in rows) for j in range(k)]
            values = [cols[j][i] for i in range(nr) for j in range(k)]
        mask = draw(g.mask(shape))
        mode = draw(g.sampled(["hard", "hard", "factor", "config", "config_none"]))
        thrs = draw(g.lists(g.grid_ints(-span, span, step), min_size=1, max_size=4,
                            unique=True))
        bounds = [[draw(g.sampled([0.25, 0.5, 1.0, 3.0])), draw(g.sampled([0.25, 0.5, 2.0]))]
                  for _ in thrs]
        if draw(g.integers(0, 3)) == 0:
            bounds = [[0.0, 0.0]] + bounds[1:]
        return {
            "name": name, "tunits": tunits, "layout": layout, "grid": grid, "n": nr,
            "nt": nt, "ns": ns, "shape": shape, "values": values, "mask": mask,
            "mode": mode, "thresholds": thrs, "bounds": bounds,
            "factor": draw(g.sampled([0.25, 0.5, 0.75, 0.9, 0.99])),
            "op": draw(g.sampled(sorted(OPS))), "collapse": draw(g.booleans()),
            "scalar": draw(g.booleans()), "times": draw(g.times()),
            "fill": draw(g.sampled([None, None, None, -50.0, 50.0])),
            "cell_method": draw(g.booleans()),
        }

    return case()


def build(case):
    from iris.coords import CellMethod, DimCoord
    from vp import cubes as c

    name = case["name"]
    units = UNITS[name][0]
    values = np.array(case["values"], dtype=np.float64) + OFFSET[name]
    if case["tunits"] is not None:
        values = values + 0.11  # keep clear of converted thresholds
    data = c.array({"shape": case["shape"], "values": values.astype(np.float32).tolist(),
                    "mask": case["mask"]})
    scal = c.time_coords(case["times"])
    layout = case["layout"]
    lead = []
    if layout[0] == "r":
        lead.append(c.realization_coord(range(case["n"])))
    if layout[0] == "p":
        n = case["n"]
        lead.append(c.percentile_coord([100.0 * (i + 1) / (n + 1) for i in range(n)]))
    if "t" in layout.replace("spot", ""):
        t0 = case["times"]["frt"] + case["times"]["fp"]
        lead.append(DimCoord(np.array([t0 + 3600 * i for i in range(case["nt"])],
                                      dtype=np.int64),
                             standard_name="time", units=c.TIME_UNIT))
        scal = [s for s in scal if s.name() == "forecast_reference_time"]
    if "spot" in layout:
        cube = c.spot_cube(data, name, units, case["ns"], lead=lead, scalars=scal)
    else:
        cube = c.new_cube(data, name, units, lead + c.yx_coords(case["grid"]), scal)
    if case["cell_method"]:
        cube.add_cell_method(CellMethod("maximum", coords="time"))
    return cube


def run(case):
    from improver.threshold import Threshold

    cube = build(case)
    name = case["name"]
    a, b = UNITS[name][1][case["tunits"]]
    off = OFFSET[name]
    # thresholds in the threshold units
    thrs = [((t + off) - b) / a for t in case["thresholds"]]
    if case["tunits"] is None:
        thrs = [t + off for t in case["thresholds"]]
    else:
        thrs = [float("%.9g" % t) for t in thrs]
    thr_native = [a * t + b for t in thrs]
    kwargs = {}
    mode = case["mode"]
    if mode == "factor" and 0.0 in thrs:
        mode = "hard"
    nb = [(t, t) for t in thr_native]
    if mode in ("hard", "factor"):
        kwargs["threshold_values"] = (
            thrs[0] if len(thrs) == 1 and case["scalar"] else thrs)
        if kwargs["threshold_values"] == 0:
            kwargs["threshold_values"] = [0.0]
        if mode == "factor":
            f = case["factor"]
            kwargs["fuzzy_factor"] = f
            nb = [tuple(sorted((a * t * f + b, a * t * (2 - f) + b))) for t in thrs]
    elif mode == "config":
        cfg = {}
        nb = []
        for t, (lo, hi) in zip(thrs, case["bounds"]):
            if lo == 0.0:
                lo, hi = t, t
            else:
                lo, hi = t - lo / a, t + hi / a
            cfg[repr(t)] = [lo, hi]
            nb.append((a * lo + b, a * hi + b))
        kwargs["threshold_config"] = cfg
    else:
        kwargs["threshold_config"] = {repr(t): "None" for t in thrs}
    if case["tunits"]:
        kwargs["threshold_units"] = case["tunits"]
    coll = None
    if case["collapse"] and case["layout"][0] in "rp":
        coll = "realization" if case["layout"][0] == "r" else "percentile"
        kwargs["collapse_coord"] = coll
    if case["fill"] is not None:
        kwargs["fill_masked"] = case["fill"]
    data, mask = o.plain(cube.data)
    data = data.astype(np.float64)
    if case["fill"] is not None:
        data = np.where(mask, np.float32(case["fill"]), data)
        mask = np.zeros_like(mask)
    spp, func = OPS[case["op"]]
    expected = {}
    for t, tn, (lo, hi) in zip(thrs, thr_native, nb):
        if lo == hi:
            if case["tunits"] and (np.abs(data - tn) < 1e-3).any():
                o.reject("value within rounding of a converted threshold")
            p = func(data, tn).astype(np.float64)
        else:
            with np.errstate(all="ignore"):
                p = np.where(data < tn, 0.5 * (data - lo) / (tn - lo),
                             0.5 + 0.5 * (data - tn) / (hi - tn))
            p = np.clip(p, 0.0, 1.0)
            if "less" in spp:
                p = 1.0 - p
        if coll:
            n = (~mask).sum(axis=0)
            p = np.where(mask, 0.0, p).sum(axis=0) / np.maximum(n, 1)
            m = n == 0
        else:
            m = mask
        expected[tn] = (p, m)
    frt = cube.coord("forecast_reference_time").points.copy()
    result = Threshold(comparison_operator=case["op"], **kwargs)(cube)
    above = "above" if "greater" in spp else "below"
    o.equal(result.name(), "probability_of_%s_%s_threshold" % (name, above), "name")
    o.equal(str(result.units), "1", "units")
    o.equal(str(result.dtype), "float32", "dtype")
    coord = result.coord(var_name="threshold")
    o.equal(coord.name(), name, "threshold coordinate name")
    o.equal(str(coord.units), str(UNITS[name][0]), "threshold coordinate units")
    o.equal(coord.attributes.get("spp__relative_to_threshold"), spp, "spp attribute")
    o.equal(coord.points.size, len(thrs), "number of thresholds")
    o.equal(str(coord.points.dtype), "float32", "threshold coordinate dtype")
    o.equal(result.coord("forecast_reference_time").points.tolist(), frt.tolist(), "frt")
    o.check(not coll or not result.coords("realization"), "realization coordinate kept")
    dims = result.coord_dims(coord)
    for k, point in enumerate(coord.points):
        key = min(expected, key=lambda t: abs(t - float(point)))
        o.check(abs(key - float(point)) <= 1e-4 * max(1.0, abs(key)),
                "threshold coordinate %s, expected one of %s", coord.points,
                sorted(expected))
        p, m = expected.pop(key)
        got = result.data[tuple(k if d in dims else slice(None)
                                for d in range(result.ndim))]
        o.close_masked(np.squeeze(got), np.squeeze(p), np.squeeze(m),
                       "probabilities for threshold %s" % point, rtol=2e-4, atol=2e-4)
        nontriv = p[~m].size > 0 and p[~m].min() != p[~m].max()
    o.label(mode, case["layout"], "collapse" if coll else "no-collapse",
            "units" if case["tunits"] else "native", "masked" if mask.any() else "unmasked",
            "unsorted" if thrs != sorted(thrs) else "sorted")
    return nontriv or len(thrs) > 1


def gen_lat():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(1, 5, kinds=("latlon",)))
        n = draw(g.integers(0, 3))
        shape = ([n] if n else []) + [grid["ny"], grid["nx"]]
        return {"grid": grid, "n": n, "shape": shape,
                "values": draw(g.field(shape, g.grid_ints(-8, 8, 1))),
                "op": draw(g.sampled(sorted(OPS))),
                "slope": draw(g.sampled([0.0, 0.25, -0.5, 1.0])),
                "base": draw(g.integers(-5, 5)), "tunits": draw(g.sampled([None, "celsius"])),
                "times": draw(g.times())}

    return case()


def run_lat(case):
    from improver.threshold import LatitudeDependentThreshold
    from vp import cubes as c

    off = 0.07 if case["tunits"] else 0.0
    data = (np.array(case["values"], dtype=np.float64).reshape(case["shape"]) + 280 + off)
    lead = [c.realization_coord(range(case["n"]))] if case["n"] else []
    cube = c.new_cube(data.astype(np.float32), "air_temperature", "K",
                      lead + c.yx_coords(case["grid"]), c.time_coords(case["times"]))
    lats = cube.coord("latitude").points.astype(np.float64)
    shift = -273.15 if case["tunits"] else 0.0

    def func(lat):
        return (280.0 + shift + case["base"] + case["slope"] * (lat - case["grid"]["y0"])).astype(np.float32) if (
            isinstance(lat, np.ndarray)) else np.float32(
                280.0 + shift + case["base"] + case["slope"] * (lat - case["grid"]["y0"]))

    want_thr = 280.0 + case["base"] + case["slope"] * (lats - case["grid"]["y0"])
    spp, op = OPS[case["op"]]
    if case["tunits"] and (np.abs(data - want_thr[:, None]) < 1e-3).any():
        o.reject("tie")
    expected = op(data, want_thr[:, None]).astype(np.float64)
    result = LatitudeDependentThreshold(func, threshold_units=case["tunits"],
                                        comparison_operator=case["op"])(cube)
    coord = result.coord(var_name="threshold")
    o.close(np.atleast_1d(coord.points), want_thr, "threshold coordinate", rtol=1e-5,
            atol=1e-4)
    o.equal(str(coord.units), "K", "threshold coordinate units")
    o.equal(coord.attributes.get("spp__relative_to_threshold"), spp, "spp attribute")
    o.close(np.squeeze(result.data), np.squeeze(expected), "probabilities")
    return expected.min() != expected.max()


def gen_bad():
    from vp import gens as g

    @g.composite
    def case(draw):
        return {"what": draw(g.sampled(
            ["nan", "factor", "zero", "both", "none", "bounds_out", "bounds_len", "op",
             "collapse", "landmask"])),
            "factor": draw(g.sampled([0.0, 1.0, -0.5, 1.5, 2.0])),
            "thr": draw(g.lists(g.grid_ints(-3, 3, 0.5), min_size=1, max_size=3,
                                unique=True)),
            "pos": draw(g.integers(0, 3)),
            "mask": draw(g.booleans()),
            "op": draw(g.sampled(["!=", "==", "gte", "", "greater", "=>"])),
            "side": draw(g.integers(0, 1))}

    return case()


def run_bad(case):
    from improver.threshold import Threshold
    from vp import cubes as c

    what, thr = case["what"], case["thr"]
    grid = {"kind": "laea", "ny": 2, "nx": 2, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}
    data = np.arange(4, dtype=np.float32).reshape(2, 2)

    def cube(arr):
        return c.new_cube(arr, "air_temperature", "K", c.yx_coords(grid),
                          c.time_coords({"frt": 1510286400, "fp": 0}))

    if what == "nan":
        data.ravel()[case["pos"]] = np.nan
        if case["mask"]:
            m = np.zeros((2, 2), dtype=bool)
            m.ravel()[(case["pos"] + 1) % 4] = True
            data = np.ma.masked_array(data, m)
        o.raises(ValueError, Threshold(threshold_values=thr), cube(data))
    elif what == "factor":
        o.raises(ValueError, Threshold, threshold_values=[t + 10 for t in thr],
                 fuzzy_factor=case["factor"])
    elif what == "zero":
        o.raises(ValueError, Threshold, threshold_values=sorted(set(thr + [0.0])),
                 fuzzy_factor=0.5)
    elif what == "both":
        o.raises(ValueError, Threshold, threshold_values=[t + 10 for t in thr],
                 threshold_config={"1.0": [0.0, 2.0]})
    elif what == "none":
        o.raises(ValueError, Threshold)
    elif what == "bounds_out":
        t = thr[0]
        bnd = [t + 0.5, t + 1] if case["side"] else [t - 2, t - 0.25]
        o.raises(ValueError, Threshold, threshold_config={str(t): bnd})
    elif what == "bounds_len":
        t = thr[0]
        o.raises(ValueError, Threshold, threshold_config={
            str(t): [t] if case["side"] else [t - 1, t, t + 1]})
    elif what == "op":
        o.raises(ValueError, Threshold, threshold_values=thr,
                 comparison_operator=case["op"])
    elif what == "collapse":
        o.raises(ValueError, Threshold, threshold_values=[1.0], collapse_coord="time")
    else:
        lm = cube(np.ones((2, 2), np.float32))
        o.raises(ValueError, Threshold(threshold_values=[1.0]), cube(data), lm)
    o.label(what)
    return True


SUBS = {"threshold": Sub(gen, run, 6), "latitude": Sub(gen_lat, run_lat, 1),
        "rejects": Sub(gen_bad, run_bad, 0.6)}
