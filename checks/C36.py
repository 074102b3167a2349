"""C36: metadata standards, attributes and standardisation."""
import datetime

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: cubes of any layout with data, coordinates, bounds and time units inside and outside "
        "the standard, dimensions of length one, status flags, cell methods, requested names, units, "
        "attributes and coordinate values; sets of attributes of several cubes; non-trivial when "
        "something has to be changed or reported")
QUICK = 1600
THOROUGH = 40000
SEC = "seconds since 1970-01-01 00:00:00"
UNITS = {"time": SEC, "forecast_reference_time": SEC, "forecast_period": "seconds"}
DTYPE = {"time": "i8", "forecast_reference_time": "i8", "forecast_period": "i4"}
FLAG = "air_temperature status_flag"


def dims(cube):
    return [x.name() for x in cube.coords(dim_coords=True)]


def gen_cube(draw, g, leads=("none", "none", "realization", "realization", "time"), main=False):
    lay = draw(g.layout(draw(g.sampled([0, 0, 1, 2])) if main else 0, leads=leads))
    n = g.size(lay["inner"])
    crds = ["time", "forecast_reference_time", "forecast_period", "y", "x", "height", "realization"]
    return {"lay": lay, "v": draw(g.fixed(n, g.integers(-40, 40))),
            "mask": draw(g.one_of(g.just(None), g.fixed(n, g.sampled([0, 0, 1])))),
            "dtype": draw(g.sampled(["f4", "f4", "f8", "i4", "i8", "i1"])),
            "wide": draw(g.lists(g.sampled(crds), max_size=4, unique=True)),
            "hours": draw(g.lists(g.sampled(crds[:3]), max_size=3, unique=True)),
            "height": draw(g.sampled([None, 2, 10])), "late": draw(g.sampled([0, 0, 15, 20, 59])) * 60}


def build(case, exact=None):
    """The cube with coordinates of the types and units of the case."""
    from iris.coords import AuxCoord
    from vp import cubes as c

    lay = case["lay"]
    lay = dict(lay, times=dict(lay["times"], fp=lay["times"]["fp"] + case["late"]))
    a = np.array(case["v"], float).reshape(lay["inner"])
    m = lay.get("main", 0)
    percentile = None
    if m:
        a = np.stack([a + 3 * k for k in range(m)])
        percentile = c.percentile_coord([20.0, 70.0][:m])
    d = a.astype(case["dtype"])
    if case["mask"] is not None:
        d = np.ma.MaskedArray(d, np.broadcast_to(
            np.array(case["mask"], bool).reshape(lay["inner"]), d.shape).copy())
    cube = c.layout_cube(lay, d, "air_temperature", "celsius", percentile)
    if exact is not None:
        exact.update({x.name(): (x.points.tolist(), None if x.bounds is None else x.bounds.tolist())
                      for x in cube.coords() if x.name() in UNITS})
    if case["height"] is not None:
        cube.add_aux_coord(AuxCoord(np.float32(case["height"]), "height", units="m"))
    for name in case["hours"]:
        unit = "hours" if name == "forecast_period" else "hours since 1970-01-01 00:00:00"
        cube.coord(name).convert_units(unit)
    for name in case["wide"]:
        if name in ("y", "x"):
            crds = [] if lay["spot"] else [cube.coord(axis=name)]
        else:
            crds = cube.coords(name)
        for x in crds:
            t = np.int64 if np.issubdtype(x.dtype, np.integer) else np.float64
            if x.name() in ("time", "forecast_reference_time"):
                t = np.float64
            b = None if x.bounds is None else x.bounds.astype(t)
            x.bounds = None
            x.points = x.points.astype(t)
            x.bounds = b
    return cube, a


def required(x, dtype=None):
    if x.name() in DTYPE:
        return np.dtype(DTYPE[x.name()])
    d = np.dtype(dtype or x.dtype)
    return np.dtype("f4") if np.issubdtype(d, np.floating) else d


# ---------------------------------------------------------------- standardisation
def gen_standardise():
    from vp import gens as g

    @g.composite
    def case(draw):
        case = gen_cube(draw, g, main=True)
        case["lay"]["main"] = case["lay"]["dims"].count("main") and draw(g.integers(1, 2))
        n = g.size(case["lay"]["inner"])
        case.update({
            "name": draw(g.sampled([None, None, "dew_point_temperature"])),
            "units": draw(g.sampled([None, None, "K", "celsius"])),
            "remove": draw(g.lists(g.sampled(["height", "forecast_period", "kittens", "time"]), max_size=2,
                                   unique=True)),
            "modify": draw(g.sampled([None, None, None, {"height": 1.5}, {"height": 7.0}, {"kittens": 3.0},
                                      {"time": 4.0}, {"x": 4.0}, {"height": [1.0, 2.0]}])),
            "attrs": draw(g.sampled([None, None, {"title": "remove"}, {"title": "new {}", "extra": "more {}"}])),
            "cms": draw(g.lists(g.sampled(["point", "mean", "max", "pointfp"]), max_size=3, unique=True)),
            "flag": draw(g.one_of(g.just(None), g.just(None), g.fixed(n, g.sampled([0, 0, 1])))),
            "flagdims": draw(g.sampled(["all", "space"])),
            "calls": draw(g.integers(1, 2)),
            "badflag": draw(g.sampled([None] * 6 + ["attributes"]))})
        return case

    return case()


def run_standardise(case):
    from improver.metadata.check_datatypes import check_mandatory_standards
    from improver.standardise import StandardiseMetadata
    from iris.coords import AuxCoord, CellMethod
    from vp import cubes as c

    lay = case["lay"]
    # (the status flag comes on floating point grids, realization first)
    flag = case["flag"]
    if flag is not None:
        if case["dtype"] not in ("f4", "f8") or lay["lead"] == "time" or case["mask"] is not None \
                or lay["main"]:
            flag = None
        elif lay["lead"] == "realization":
            lay = dict(lay, dims=["realization"] + [x for x in lay["dims"] if x != "realization"])
        case = dict(case, lay=lay)
    for_call = []
    for _ in range(case["calls"]):
        exact = {}
        cube, a = build(case, exact)
        for x in case["cms"]:
            cube.add_cell_method({"point": CellMethod("point", "time"), "mean": CellMethod("mean", "time"),
                                  "max": CellMethod("maximum", "realization"),
                                  "pointfp": CellMethod("point", "forecast_period")}[x])
        below = np.zeros(a.shape, bool)
        if flag is not None:
            f = np.array(flag, "i1").reshape(a.shape)
            d = list(range(a.ndim))
            moved = [x for x in lay["dims"]]
            axes = ([lay["lead"]] if lay["k"] else []) + (["site"] if lay["spot"] else ["y", "x"])
            if lay["k"] and case["flagdims"] == "space":
                f = np.broadcast_to(f[:1], a.shape)
            below = f.astype(bool)
            pts = f.transpose([axes.index(x) for x in moved])
            if lay["k"] and case["flagdims"] == "space":
                pts, d = pts[0], d[1:]
            at = {"flag_meanings": "above_surface_pressure below_surface_pressure",
                  "flag_values": np.array([0, 1], dtype="int8")}
            if case["badflag"]:
                at["flag_meanings"] = "below above"
            cube.add_aux_coord(AuxCoord(np.array(pts), long_name=FLAG, attributes=at), d)
        for_call.append(cube)
    modify = case["modify"]
    ref = for_call[0].copy()
    if any(ref.coords(x) and len(ref.coord(x).points) > 1 for x in case["remove"]):
        o.reject("only scalar coordinates are removed")
    if modify and "x" in modify:
        modify = {ref.coord(axis="x").name() if not lay["spot"] else "longitude": 4.0}
    plugin = StandardiseMetadata(new_name=case["name"], new_units=case["units"], coords_to_remove=case["remove"],
                                 coord_modification=modify, attributes_dict=case["attrs"])
    bad = flag is not None and case["badflag"]
    if modify:
        (name, value), = modify.items()
        there = bool(ref.coords(name)) and name not in (case["remove"] or [])
        if there and (name != "height" or isinstance(value, list)):
            if lay["spot"] and name == "longitude":
                o.reject("coordinates of sites")
            if name == "time" or isinstance(value, list) or len(ref.coord(name).points) > 1:
                bad = True
    if bad:
        o.raises(ValueError, plugin, for_call[0])
        return True
    for cube in for_call:
        res = plugin(cube)
    check_mandatory_standards(res)
    # dimensions of length one become scalars, except the realization
    space = ["spot_index"] if lay["spot"] else [ref.coord(axis=x).name() for x in "yx"]
    keep = [x.name() for x in ref.coords(dim_coords=True) if len(x.points) > 1 or x.name() == "realization"]
    o.equal(dims(res), keep, "dimensions")
    _ = space
    got = c.aligned(res, dict(lay, k=0) if lay["lead"] in case["remove"] else lay,
                    "percentile" if lay["main"] else None)
    mask = np.zeros(a.shape, bool)
    if case["mask"] is not None:
        mask = np.broadcast_to(np.array(case["mask"], bool).reshape(lay["inner"]), a.shape)
    o.equal(np.ma.getmaskarray(got).reshape(a.shape), mask, "masked points")
    want = a + 273.15 if case["units"] == "K" else a
    want = np.where(below, np.nan, want)
    got = np.ma.filled(np.ma.asarray(got).astype(float), 0).reshape(a.shape)
    o.close(np.where(mask, 0, got), np.where(mask, 0, want), "values", rtol=1e-5, atol=1e-4)
    floating = case["dtype"] in ("f4", "f8") or case["units"] == "K"
    o.equal(res.dtype, np.dtype("f4" if floating else case["dtype"]), "type of the data")
    o.equal((res.name(), str(res.units)), (case["name"] or "air_temperature", case["units"] or "celsius"), "result")
    attrs = dict(ref.attributes)
    for k, v in (case["attrs"] or {}).items():
        if v == "remove":
            attrs.pop(k, None)
        else:
            attrs[k] = v.replace("{}", attrs.get(k, ""))
    o.equal(dict(res.attributes), attrs, "attributes")
    names = sorted(x.name() for x in ref.coords() if x.name() != FLAG and x.name() not in case["remove"])
    o.equal(sorted(x.name() for x in res.coords()), names, "coordinates")
    for x in ref.coords():
        if x.name() not in names:
            continue
        y = res.coord(x.name())
        x = x.copy()
        if x.name() in UNITS:
            x.convert_units(UNITS[x.name()])
        pts, bds = x.points, x.bounds
        if modify and x.name() in modify:
            pts = np.array([modify[x.name()]])
        if x.name() in exact:
            o.equal((y.points.tolist(), None if y.bounds is None else y.bounds.tolist()), exact[x.name()],
                    "moments of " + x.name())
        o.equal(y.units, x.units, "units of " + x.name())
        o.equal(y.dtype, required(x), "type of " + x.name())
        if y.dtype.kind in "fi":
            o.close(y.points.astype(float), np.asarray(pts, float), "points of " + x.name(), rtol=1e-7, atol=1e-4)
        else:
            o.equal(y.points.tolist(), pts.tolist(), "points of " + x.name())
        o.equal(y.bounds is None, bds is None, "bounds of " + x.name())
        if bds is not None:
            o.equal(y.bounds.dtype, required(x), "type of the bounds of " + x.name())
            o.close(y.bounds.astype(float), bds.astype(float), "bounds of " + x.name(), rtol=1e-7, atol=1e-4)
    o.equal([str(x) for x in res.cell_methods],
            [str(x) for x in ref.cell_methods if not (x.method == "point" and tuple(x.coord_names) == ("time",))],
            "cell methods")
    o.label("flag" if flag is not None else "no flag", lay["lead"], case["dtype"])
    return bool(case["wide"] or case["hours"] or below.any() or case["name"] or case["units"] or case["cms"]
                or case["attrs"])


# ---------------------------------------------------------------- standards
def gen_standards():
    from vp import gens as g

    @g.composite
    def case(draw):
        case = gen_cube(draw, g)
        if draw(g.booleans()):
            case.update(wide=[], hours=[])
        case["bounds"] = draw(g.lists(g.sampled(["time", "forecast_period", "height"]), max_size=2, unique=True))
        case["float"] = draw(g.booleans())
        return case

    return case()


def run_standards(case):
    from improver.metadata.check_datatypes import (check_dtype, check_mandatory_standards, check_units,
                                                   enforce_dtype)

    cube, _ = build(case)
    if case["float"]:
        cube.data = cube.data.astype(np.float32)
    # bounds of another type than the points
    for name in case["bounds"]:
        for x in cube.coords(name):
            p = x.points.astype(float)
            x.bounds = np.stack([p - 1, p], -1).astype(np.float64)
    wrong = []
    if cube.dtype != required(cube):
        wrong.append((cube.name(), "dtype"))
    o.equal(bool(check_dtype(cube)), not wrong, "type of the data is standard")
    for x in cube.coords():
        ok = x.dtype == required(x) and (x.bounds is None or x.bounds.dtype == required(x))
        o.equal(bool(check_dtype(x)), bool(ok), "type of %s is standard" % x.name())
        if not ok:
            wrong.append((x.name(), "dtype"))
        fine = x.name() not in UNITS or not str(x.units).startswith("hours")
        o.equal(bool(check_units(x)), fine, "units of %s are standard" % x.name())
        if not fine:
            wrong.append((x.name(), "units"))
    before = o.snapshot(cube)
    try:
        check_mandatory_standards(cube)
        text = None
    except ValueError as err:
        text = str(err)
    o.unchanged(before, cube)
    o.equal(text is not None, bool(wrong), "standards are met", )
    for name, what in wrong:
        found = any(part.startswith(name) and ("required " + what) in part
                    for part in text.replace("\nExpected", " Expected").split("\n"))
        o.check(found or (name in text and "required " + what in text), "%s of %s not reported" % (what, name), text)
    if cube.dtype == required(cube):
        enforce_dtype("+", [cube, cube], cube)
    else:
        o.raises(TypeError, enforce_dtype, "+", [cube, cube], cube)
    o.label("wrong%d" % min(len(wrong), 4))
    return bool(wrong)


# ---------------------------------------------------------------- attributes
def gen_attributes():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.integers(1, 4))
        val = g.sampled(["a", "a", "a", "b", "b c", "c a", None])
        return {"n": n, "what": draw(g.sampled(["amend", "history", "models", "model", "mandatory", "new", "copy"])),
                "title": [draw(val) for _ in range(n)], "source": [draw(val) for _ in range(n)],
                "institution": [draw(val) for _ in range(n)], "model": [draw(val) for _ in range(n)],
                "need": draw(g.booleans()), "append": draw(g.booleans()), "number": draw(g.booleans()),
                "change": {k: draw(g.sampled(["remove", "new", "{}", "was {}", "{now:%Y-%m-%dT%H}",
                                              "at {now:%H:%M} {}", "two\nlines {now:%Y}"]))
                           for k in draw(g.lists(g.sampled(["title", "source", "model", "fresh"]), max_size=3,
                                                 unique=True))},
                "optional": draw(g.sampled([None, {"title": "other"}, {"extra": "e"}])),
                "data": draw(g.booleans()), "lay": draw(g.layout(0, leads=("none", "realization", "time"))),
                "dtype": draw(g.sampled(["f4", "i1"]))}

    return case()


def run_attributes(case):
    from improver.metadata import amend
    from improver.metadata import utilities as mu
    from improver.utilities.copy_attributes import CopyAttributes
    from iris.cube import CubeList
    from vp import cubes as c

    what, n, lay = case["what"], case["n"], case["lay"]
    keys = ["title", "source", "institution", "model"]
    dicts = [{k: case[k][i] for k in keys if case[k][i] is not None} for i in range(n)]
    size = lay["inner"]
    cubes = [c.layout_cube(lay, np.zeros(size, np.float32), "air_temperature", "K", attributes=d) for d in dicts]
    for x, d in zip(cubes, dicts):
        o.equal(dict(x.attributes), d, "attributes of the input")
    first = cubes[0]
    if what == "amend":
        times = [datetime.datetime.now()]
        change = dict(case["change"])
        amend.amend_attributes(first, change)
        times.append(datetime.datetime.now())
        o.equal(change, case["change"], "requested changes")
        options = []
        for t in times:
            want = dict(dicts[0])
            for k, v in case["change"].items():
                if v == "remove":
                    want.pop(k, None)
                    continue
                for f in ("%Y-%m-%dT%H", "%H:%M", "%Y"):
                    v = v.replace("{now:%s}" % f, t.strftime(f))
                want[k] = v.replace("{}", want.get(k, ""))
            options.append(want)
        if dict(first.attributes) not in options:
            o.equal(dict(first.attributes), options[0], "attributes")
        return bool(case["change"])
    if what == "history":
        t0 = datetime.datetime.utcnow().replace(microsecond=0)
        amend.set_history_attribute(first, "one")
        amend.set_history_attribute(first, "two: x", append=case["append"])
        h = first.attributes["history"].split("; ")
        o.equal(len(h), 2 if case["append"] else 1, "entries")
        for text, end in zip(h, ["one", "two: x"] if case["append"] else ["two: x"]):
            stamp, rest = text.split("Z: ", 1)
            t = datetime.datetime.strptime(stamp, "%Y-%m-%dT%H:%M:%S")
            o.check(t0 <= t <= datetime.datetime.utcnow() and rest == end, "history " + text)
        o.equal({k: v for k, v in first.attributes.items() if k != "history"}, dicts[0], "other attributes")
        return True
    models = [d.get("model") for d in dicts]
    if what == "models":
        if None in models:
            o.raises(AttributeError, amend.update_model_id_attr_attribute, cubes, "model")
        else:
            res = amend.update_model_id_attr_attribute(CubeList(cubes), "model")
            o.equal(res, {"model": " ".join(sorted({x for m in models for x in m.split(" ")}))}, "models")
        return len(set(models)) > 1
    if what == "model":
        if None in models or len(set(models)) > 1:
            o.raises(ValueError, mu.get_model_id_attr, cubes, "model")
        else:
            o.equal(mu.get_model_id_attr(cubes, "model"), models[0], "model")
        return n > 1
    if what == "mandatory":
        need = case["need"]
        if need and (None in models or len(set(models)) > 1):
            o.raises(ValueError, mu.generate_mandatory_attributes, cubes, model_id_attr="model")
            return True
        for _ in range(2):
            res = mu.generate_mandatory_attributes(cubes, model_id_attr="model" if need else None)
            want = {"title": "unknown", "source": "IMPROVER", "institution": "unknown"}
            for k in list(want) + (["model"] if need else []):
                vals = {d.get(k) for d in dicts}
                if len(vals) == 1 and None not in vals:
                    want[k], = vals
            o.equal(res, want, "mandatory attributes")
            res["title"] = "changed"
        return n > 1
    if what == "copy":
        for d, x in zip(dicts, cubes):
            if case["number"]:
                d["number"] = x.attributes["number"] = 3 if x is first else 4
        names = ["title", "model"] + (["number"] if case["number"] else [])
        plugin = CopyAttributes(names)
        if n == 1:
            o.reject("nothing to copy to")
        if any(k not in dicts[0] for k in names):
            o.raises(KeyError, plugin, *cubes[1:], template_cube=first)
            return True
        plugin(*cubes[1:], template_cube=first)
        for x, d in zip(cubes, dicts):
            o.equal(dict(x.attributes), dict(d, **{k: dicts[0][k] for k in names}), "attributes")
        return True
    mandatory = {k: v for k, v in dicts[0].items() if k != "model"}
    given = dict(mandatory)
    optional = None if case["optional"] is None else dict(case["optional"])
    want = dict(mandatory, **(optional or {}))
    data = np.arange(g_size(size), dtype="i4").reshape(first.shape) if case["data"] else None
    before = o.snapshot(first)
    for _ in range(2):
        args = ("wind_speed", "m s-1", first, given, optional)
        if not all(k in want for k in ("title", "source", "institution")):
            o.raises(ValueError, mu.create_new_diagnostic_cube, *args, data=data)
            return True
        res = mu.create_new_diagnostic_cube(*args, data=data, dtype=np.dtype(case["dtype"]).type)
        o.unchanged(before, first)
        o.equal((given, optional), (mandatory, case["optional"]), "given attributes")
        o.equal((res.name(), str(res.units), dict(res.attributes)), ("wind_speed", "m s-1", want), "new cube")
        o.equal(list(res.cell_methods), [], "cell methods")
        o.equal(dims(res), dims(first), "dimensions")
        o.equal(sorted(x.name() for x in res.coords()), sorted(x.name() for x in first.coords()), "coordinates")
        for x in first.coords():
            o.same_coord(res.coord(x.name()), x)
            o.equal(res.coord_dims(x.name()), first.coord_dims(x.name()), "dimensions of " + x.name())
        o.equal((res.data.tolist(), res.dtype), (np.zeros(first.shape).tolist() if data is None else data.tolist(),
                                                 np.dtype(case["dtype"]) if data is None else data.dtype), "data")
        res.coord("time").points = res.coord("time").points + 60
        optional = None if optional is None else dict(optional)
    return True


def g_size(shape):
    return int(np.prod(shape))


SUBS = {"standardise": Sub(gen_standardise, run_standardise, 4), "standards": Sub(gen_standards, run_standards, 2),
        "attributes": Sub(gen_attributes, run_attributes, 3)}
