"""C11: small array and configuration helpers."""
import json
import os
import sys
import tempfile

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: index and data arrays of 1-3 dimensions with 1-40 members, nested iterables, "
        "arrays near and away from integers, angles and radii, truncated normal distributions, "
        "JSON documents, lists of radii and lead times, level dictionaries; non-trivial when the "
        "input has more than one element")
QUICK = 8000
THOROUGH = 100000


def gen_choose():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.sampled([1, 2, 3, 4, 40]))
        shape = [n] + draw(g.lists(g.integers(1, 3), max_size=2))
        return {"shape": shape, "idx": draw(g.fixed(g.size(shape), g.integers(0, n - 1))),
                "values": draw(g.fixed(g.size(shape), g.integers(-50, 50))),
                "dtype": draw(g.sampled(["float32", "int32", "float64", "bool"])),
                "bad": draw(g.sampled([None, None, None, "index", "shape"])),
                "k": draw(g.integers(0, 1000))}

    return case()


def run_choose(case):
    from improver.utilities.indexing_operations import choose

    idx = np.array(case["idx"], np.int64).reshape(case["shape"])
    a = np.array(case["values"]).astype(case["dtype"]).reshape(case["shape"])
    if case["bad"] == "index":
        idx.ravel()[case["k"] % idx.size] = case["shape"][0]
        o.raises(IndexError, choose, idx, a)
        return True
    if case["bad"] == "shape":
        o.raises(ValueError, choose, idx[..., :1] if idx.shape[-1] > 1 else np.stack(
            [idx, idx]), a)
        return True
    before = a.copy(), idx.copy()
    got = choose(idx, a)
    want = np.empty(a.shape, a.dtype)
    for pos in np.ndindex(*a.shape):
        want[pos] = a[(idx[pos],) + pos[1:]]
    o.equal(got, want, "chosen values")
    o.equal(got.dtype, a.dtype, "type")
    o.check((a == before[0]).all() and (idx == before[1]).all(), "inputs modified")
    return a.size > 1


def gen_flatten():
    from hypothesis import strategies as st

    leaf = st.one_of(st.integers(-5, 5), st.sampled_from(["", "ab", "c", None, 1.5, True]))
    tree = st.recursive(leaf, lambda s: st.tuples(
        st.sampled_from(["list", "tuple", "gen"]), st.lists(s, max_size=4)), max_leaves=20)
    return st.fixed_dictionaries({"tree": tree})


def run_flatten(case):
    from improver.utilities.flatten import flatten

    def is_node(t):
        return isinstance(t, list) and len(t) == 2 and t[0] in ("list", "tuple", "gen") and \
            isinstance(t[1], list)

    def build(t):
        if not is_node(t):
            return t
        items = [build(x) for x in t[1]]
        return {"list": items, "tuple": tuple(items), "gen": iter(items)}[t[0]]

    def leaves(t):
        return [t] if not is_node(t) else [y for x in t[1] for y in leaves(x)]

    t = case["tree"]
    got = list(flatten(build(t)))
    want = leaves(t)
    o.equal([(type(x), x) for x in got], [(type(x), x) for x in want], "flattened items")
    return len(want) > 1


def gen_round():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.integers(1, 6))
        return {"base": draw(g.fixed(n, g.integers(-120, 120))),
                "eps": draw(g.fixed(n, g.sampled([0.0, 0.0, 2e-8, -2e-8, 9e-8]))),
                "off": draw(g.sampled([0.0, 0.0, 0.5, 0.25, -0.1, 0.002])),
                "where": draw(g.integers(0, 5)), "scalar": draw(g.booleans()),
                "twod": draw(g.booleans()),
                "dtype": draw(g.sampled([None, "int32", "int64", "int8", "int16"]))}

    return case()


def run_round(case):
    from improver.utilities.round import round_close

    base = np.array(case["base"])
    x = base + np.array(case["eps"])
    i = case["where"] % len(x)
    x[i] += case["off"]
    kw = {} if case["dtype"] is None else {"dtype": getattr(np, case["dtype"])}
    if case["scalar"]:
        x, base = float(x[i]), base[i]
    elif case["twod"]:
        x, base = np.stack([x, x]), np.stack([base, base])
    if case["off"]:
        o.raises(ValueError, round_close, x, **kw)
        o.label("refused")
        return True
    got = round_close(x, **kw)
    o.equal(np.asarray(got).tolist(), np.asarray(base).tolist(), "rounded values")
    o.equal(np.asarray(got).dtype, np.dtype(case["dtype"] or "int64"), "type")
    return np.size(x) > 1


def gen_angles():
    from vp import gens as g

    @g.composite
    def case(draw):
        shape = draw(g.lists(g.integers(1, 3), min_size=1, max_size=3))
        ang = g.one_of(g.grid_ints(-720, 720, 0.25), g.sampled(
            [0.0, 360.0, 359.9999, 1e-6, -1e-6, 180.0, -180.0, 270.0, 90.0]))
        return {"shape": shape, "angles": draw(g.field(shape, ang)),
                "radius": draw(g.sampled([None, "scalar", "array"])),
                "r": draw(g.field(shape, g.grid_ints(0.5, 8, 0.5))),
                "dtype": draw(g.sampled(["float32", "float64"]))}

    return case()


def run_angles(case):
    from improver.utilities.complex_conversion import complex_to_deg, deg_to_complex

    a = np.array(case["angles"]).reshape(case["shape"]).astype(case["dtype"])
    r = np.array(case["r"]).reshape(case["shape"])
    rad = {None: 1.0, "scalar": float(r.ravel()[0]), "array": r}[case["radius"]]
    z = deg_to_complex(a) if case["radius"] is None else deg_to_complex(a, rad)
    th = a.astype(np.float64) * np.pi / 180.0
    o.close(np.real(z), rad * np.cos(th), "real part", atol=1e-5)
    o.close(np.imag(z), rad * np.sin(th), "imaginary part", atol=1e-5)
    out = complex_to_deg(z)
    o.equal(out.dtype, np.dtype("float32"), "type")
    o.check(((out >= 0) & (out < 360)).all(), "angles outside [0, 360): %s", out)
    d = np.abs(out.astype(np.float64) - np.mod(a.astype(np.float64), 360.0))
    d = np.minimum(d, 360.0 - d)
    o.check((d < 2e-3 if case["dtype"] == "float32" else d < 2e-4).all(),
            "round trip of %s gave %s", a, out)
    zero = complex_to_deg(np.array([0j, -1 + 0j, 0 - 1j]))
    o.close(zero, [0.0, 180.0, 270.0], "special values")
    o.raises(TypeError, complex_to_deg, 1 + 2j)
    return a.size > 1


def gen_config():
    from hypothesis import strategies as st
    from vp import gens as g

    num = st.one_of(st.integers(0, 40000), st.sampled_from([0.5, 2000.25]))
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.sampled_from(
        [0.1, "a", "é", ""]))
    doc = st.dictionaries(st.sampled_from(["a", "b", "title", "u"]), st.recursive(
        leaf, lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(
            st.sampled_from(["x", "y"]), s, max_size=2)), max_leaves=6), max_size=4)

    @g.composite
    def case(draw):
        keys = draw(g.lists(g.sampled(["realizations", "percentiles", "thresholds", "heights",
                                       "pressures", "other"]), unique=True, max_size=4))
        return {"radii": draw(g.lists(num, min_size=1, max_size=4)),
                "leads": draw(g.sampled([None, "same", "short", "long"])),
                "lt": draw(g.fixed(5, g.integers(0, 200))), "doc": draw(doc),
                "land": draw(g.booleans()), "dz": draw(g.booleans()), "levels": {
                    k: draw(g.sampled([[1.0, 2.0], [5.0], [0.0], []])) for k in keys}}

    return case()


def run_config(case):
    from improver.nbhood import radius_by_lead_time
    from improver.spotdata.utilities import get_neighbour_finding_method_name
    from improver.synthetic_data.utilities import get_height_levels, get_leading_dimension
    from improver.utilities.cli_utilities import load_json_or_none

    radii, leads = [str(x) for x in case["radii"]], None
    n = len(radii)
    if case["leads"]:
        k = {"same": n, "short": n - 1, "long": n + 1}[case["leads"]]
        leads = [str(x) for x in case["lt"][:k]]
    if (leads is None and n != 1) or (leads is not None and len(leads) != n):
        o.raises(ValueError, radius_by_lead_time, radii, leads)
    else:
        got_r, got_l = radius_by_lead_time(radii, leads)
        want = [float(x) for x in case["radii"]]
        o.equal(got_r, want if leads is not None else want[0], "radii")
        o.equal(got_l, None if leads is None else [int(x) for x in leads], "lead times")
    fd, path = tempfile.mkstemp(suffix=".json", prefix="vp-")
    try:
        with os.fdopen(fd, "w") as fh:
            json.dump(case["doc"], fh)
        o.equal(load_json_or_none(path), case["doc"], "document")
        o.equal(load_json_or_none(None), None, "no document")
        o.equal(load_json_or_none(""), None, "no document")
    finally:
        os.remove(path)
    o.equal(get_neighbour_finding_method_name(case["land"], case["dz"]),
            "nearest" + "_land" * case["land"] + "_minimum_dz" * case["dz"], "method name")
    lv = case["levels"]
    lead = [k for k in ("realizations", "percentiles", "thresholds") if k in lv]
    if len(lead) > 1:
        o.raises(ValueError, get_leading_dimension, lv)
    else:
        want = (None, "variable") if not lead else (lv[lead[0]], {
            "realizations": "variable", "percentiles": "percentile",
            "thresholds": "probability"}[lead[0]])
        o.equal(get_leading_dimension(lv), want, "leading dimension")
    if not ("heights" in lv and "pressures" in lv):
        key = [k for k in ("heights", "pressures") if k in lv]
        o.equal(get_height_levels(lv), (lv[key[0]] if key else None, key == ["pressures"]),
                "levels")
    return n > 1 or len(lv) > 0


def gen_trunc():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.integers(1, 4))
        return {"a": draw(g.grid_ints(-4, 3.5, 0.25)), "w": draw(g.grid_ints(0.25, 5, 0.25)),
                "loc": draw(g.grid_ints(-5, 5, 0.5)), "scale": draw(g.sampled(
                    [0.5, 1.0, 2.0, 3.0])),
                "q": draw(g.fixed(n, g.grid_ints(0, 1, 1 / 64.0))),
                "bad": draw(g.integers(0, 19)) == 0}

    return case()


def run_trunc(case):
    from math import erfc, exp, log, pi, sqrt

    from improver.ensemble_copula_coupling._scipy_continuous_distns import truncnorm

    a, b = case["a"], case["a"] + case["w"]
    loc, sc = case["loc"], case["scale"]
    if case["bad"]:
        out = truncnorm.cdf(np.array(case["q"]), b, a, loc=loc, scale=sc)
        o.check(np.isnan(out).all(), "a > b gave %s", out)
        return False

    def mass(x, y):
        # P(x < Z < y), computed in the tail where it is accurate
        if x > 0:
            return 0.5 * (erfc(x / sqrt(2)) - erfc(y / sqrt(2)))
        return 0.5 * (erfc(-y / sqrt(2)) - erfc(-x / sqrt(2)))

    d = mass(a, b)
    q = np.array(case["q"])
    x = truncnorm.ppf(q, a, b, loc=loc, scale=sc)
    z = (x - loc) / sc
    o.check(((z >= a - 1e-6) & (z <= b + 1e-6)).all(), "quantiles %s outside [%s, %s]", z, a, b)
    o.close([mass(a, min(max(v, a), b)) / d for v in z], q, "distribution of the quantiles",
            atol=1e-6)
    o.close(truncnorm.cdf(x, a, b, loc=loc, scale=sc), q, "cdf(ppf)", atol=1e-6)
    zz = a + q * (b - a)
    xx = loc + sc * zz
    want = np.array([mass(a, v) / d for v in zz])
    o.close(truncnorm.cdf(xx, a, b, loc=loc, scale=sc), want, "cdf", atol=1e-6)
    o.close(truncnorm.sf(xx, a, b, loc=loc, scale=sc), 1 - want, "sf", atol=1e-6)
    inner = (q > 0) & (q < 1)
    pdf = np.array([exp(-v * v / 2) / sqrt(2 * pi) / d / sc for v in zz])
    o.close(truncnorm.pdf(xx, a, b, loc=loc, scale=sc)[inner], pdf[inner], "pdf", rtol=1e-6)
    o.close(truncnorm.logpdf(xx, a, b, loc=loc, scale=sc)[inner],
            [log(v) for v in pdf[inner]], "log pdf", rtol=1e-6)
    out = truncnorm.cdf([loc + sc * a - 1, loc + sc * b + 1], a, b, loc=loc, scale=sc)
    o.equal(out.tolist(), [0.0, 1.0], "cdf outside the support")
    out = truncnorm.pdf([loc + sc * a - 1, loc + sc * b + 1], a, b, loc=loc, scale=sc)
    o.equal(out.tolist(), [0.0, 0.0], "pdf outside the support")
    o.label("upper tail" if a > 0 else "lower tail" if b < 0 else "straddles zero")
    return len(q) > 1


def gen_names():
    from vp import gens as g

    return g.sampled([{"i": i} for i in range(400)])


NO_LIBRARY = {"treelite", "lightgbm", "pandas", "numba", "statsmodels", "stratify", "pysteps",
              "clize", "sphinx"}


def run_names(case):
    """Public lookup table, time encodings and distribution bounds."""
    import iris.coords
    from cf_units import Unit
    from improver import api
    from improver.ensemble_copula_coupling.constants import BOUNDS_FOR_ECDF
    from improver.metadata.constants.time_types import TIME_COORDS

    names = sorted(api.PROCESSING_MODULES)
    name = names[case["i"] % len(names)]
    try:
        obj = getattr(api, name)
    except ModuleNotFoundError as exc:
        if exc.name.split(".")[0] in NO_LIBRARY:
            o.reject("library not installed")
        raise
    o.check(callable(obj) and obj.__name__ == name, "api.%s is %r", name, obj)
    mod = api.PROCESSING_MODULES[name]
    o.equal(obj.__module__.replace(".__init__", ""), mod.replace(".__init__", ""),
            "module of %s" % name)
    keys = sorted(BOUNDS_FOR_ECDF)
    key = keys[case["i"] % len(keys)]
    bound = BOUNDS_FOR_ECDF[key]
    o.check(bound.value[0] < bound.value[1], "bounds of %s: %s", key, bound)
    unit = Unit(bound.units)
    o.check(not unit.is_unknown(), "units of %s", key)
    for suffix in ("_in_vicinity", "_in_variable_vicinity", "_max"):
        if key.endswith(suffix) and key[:-len(suffix)] in BOUNDS_FOR_ECDF:
            o.equal(bound, BOUNDS_FOR_ECDF[key[:-len(suffix)]], "bounds of %s" % key)
    want = {"m": "m", "air_temperature": "K", "wind": "m s-1", "rate": "m s-1",
            "thickness": "m", "fraction": "1", "pressure": "Pa", "visibility": "m"}
    for word, target in want.items():
        if len(word) > 1 and word in key and "cloud_base" not in key:
            o.check(unit.is_convertible(target), "units of %s: %s", key, bound.units)
    if "temperature" in key:
        lo, hi = [unit.convert(v, Unit("celsius")) for v in bound.value]
        o.check(-110 < lo < -60 and 50 < hi < 80, "bounds of %s in celsius: %s %s", key, lo, hi)
    for name in ("time", "forecast_reference_time", "blend_time", "forecast_period",
                 "UTC_offset"):
        spec = TIME_COORDS[name]
        if spec.calendar is None:
            o.equal((np.dtype(spec.dtype), spec.units), (np.dtype("int32"), "seconds"), name)
        else:
            o.equal((np.dtype(spec.dtype), spec.units),
                    (np.dtype("int64"), "seconds since 1970-01-01 00:00:00"), name)
    _ = iris.coords
    return True


def gen_redirect():
    from vp import gens as g

    return g.sampled([{"err": e, "text": t, "nested": n} for e in (0, 1) for t in
                      ("", "a", "two\nlines") for n in (0, 1)])


def run_redirect(case):
    import io

    from improver.utilities.redirect_stdout import redirect_stdout

    original = sys.stdout
    out, inner = io.StringIO(), io.StringIO()
    try:
        try:
            with redirect_stdout(out):
                print(case["text"])
                if case["nested"]:
                    with redirect_stdout(inner):
                        print("inner")
                        if case["err"]:
                            raise RuntimeError("x")
                    print("after")
                if case["err"]:
                    raise RuntimeError("x")
        except RuntimeError:
            pass
        after = sys.stdout
    finally:
        sys.stdout = original
    o.check(after is original, "standard output was not restored")
    want = case["text"] + "\n"
    if case["nested"]:
        o.equal(inner.getvalue(), "inner\n", "captured by the inner")
        if not case["err"]:
            want += "after\n"
    o.equal(out.getvalue(), want, "captured")
    return True


SUBS = {"choose": Sub(gen_choose, run_choose, 2), "flatten": Sub(gen_flatten, run_flatten, 1),
        "round": Sub(gen_round, run_round, 1), "angles": Sub(gen_angles, run_angles, 1),
        "config": Sub(gen_config, run_config, 2), "truncnorm": Sub(gen_trunc, run_trunc, 2),
        "names": Sub(gen_names, run_names, 0.3), "redirect": Sub(gen_redirect, run_redirect, 0.1)}
