"""C44: synthetic cubes have the coordinates, types and attributes asked for."""
import datetime

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: metadata cubes and cubes of given data of every kind (variable, percentile, probability) "
        "on both grids and at sites, with any members, percentiles, thresholds, levels, spacing, corner, "
        "times, periods and attributes, some left to their defaults, and coordinates added to them; "
        "non-trivial when a leading dimension, level, period or error is involved")
QUICK = 3000
THOROUGH = 60000
EPOCH = datetime.datetime(1970, 1, 1)
START = datetime.datetime(2017, 11, 10)
NAMES = {"air_temperature": "K", "wind_speed": "m s-1", "air_pressure_at_sea_level": "Pa", "my_own": None}
GRIDS = {"uk_det": "uk_extended", "gl_ens": "global", "nc_det": None}


def seconds(t):
    return int((t - EPOCH).total_seconds())


def options(draw, g):
    """What is common to all cubes; values that are None are not given."""
    few = g.integers(1, 4)
    kind = draw(g.sampled(["variable", "variable", "percentile", "probability"]))
    lead = draw(g.one_of(g.just(None), g.lists(g.integers(0, 90), min_size=1, max_size=4, unique=True).map(sorted)))
    return {"kind": kind, "lead": lead, "whole": draw(g.booleans()), "scale": draw(g.sampled([1, 0.5, 0.1])),
            "spp": draw(g.sampled(["above", "greater_than", "greater_than_or_equal_to", "below", "less_than",
                                   "less_than_or_equal_to", "odd", None])),
            "members": draw(few), "heights": draw(g.one_of(g.just(None), g.just(None), g.lists(
                g.integers(0, 100), min_size=1, max_size=3, unique=True).map(sorted))),
            "pressure": draw(g.booleans()), "grid": draw(g.sampled([None, "latlon", "equalarea"])),
            "dx": draw(g.sampled([None, None, 0.5, 3])), "dy": draw(g.sampled([None, None, 0.25, 2])),
            "corner": draw(g.one_of(g.just(None), g.just(None), g.fixed(2, g.integers(-40, 40)))),
            "hour": draw(g.one_of(g.just(None), g.integers(0, 40))), "minute": draw(g.sampled([0, 0, 15])),
            "ref": draw(g.one_of(g.just(None), g.just(None), g.integers(0, 12))),
            "blend": draw(g.sampled([None, None, None, "same", "only", "other"])),
            "period": draw(g.sampled([None, None, 60, 90, 720, 1440, 2000])),
            "name": draw(g.sampled(sorted(NAMES))), "vicinity": draw(g.integers(0, 3)) == 0,
            "mosg": draw(g.sampled([None, None, None] + sorted(GRIDS))), "units": draw(g.sampled([None, None, "K", "kg"])),
            "extra": draw(g.sampled([None, None, {"colour": "red"}, {"title": "mine"}]))}


def times(case):
    """(time, reference, bounds) as they will be."""
    time = None if case["hour"] is None else START + datetime.timedelta(hours=case["hour"], minutes=case["minute"])
    ref = None if case["ref"] is None else START + datetime.timedelta(hours=case["ref"])
    return time, ref


def lead_values(case):
    if case["lead"] is None:
        return None
    return list(case["lead"]) if case["whole"] else [float(x * case["scale"]) for x in case["lead"]]


def check_times(cube, case, bounds):
    from vp import cubes as c

    time, ref = times(case)
    time = time or datetime.datetime(2017, 11, 10, 4)
    blend, frt = None, ref
    if case["blend"] == "only":
        blend, frt = ref or START, None
    elif case["blend"] == "same":
        blend = frt = ref or START
    frt_at = frt or (None if blend else START)
    want = {"time": (seconds(time), "int64"), "forecast_period": (seconds(time) - seconds(frt_at or blend), "int32")}
    if frt_at:
        want["forecast_reference_time"] = (seconds(frt_at), "int64")
    if blend:
        want["blend_time"] = (seconds(blend), "int64")
    for name in ("time", "forecast_reference_time", "forecast_period", "blend_time"):
        o.equal(bool(cube.coords(name)), name in want, "there is a " + name)
        if name not in want:
            continue
        x = cube.coord(name)
        value, dtype = want[name]
        o.equal((x.points.tolist(), str(x.dtype), cube.coord_dims(x)), ([value], dtype, ()), name)
        o.equal(str(x.units), "seconds" if name == "forecast_period" else c.TIME_UNIT, "units of " + name)
        if bounds and name in ("time", "forecast_period"):
            shift = 0 if name == "time" else seconds(frt_at or blend)
            o.equal((x.bounds.tolist(), str(x.bounds.dtype)), ([[seconds(b) - shift for b in bounds]], dtype),
                    "bounds of " + name)
        else:
            o.check(x.bounds is None, "bounds of %s", name)


def check_grid(cube, case, ny, nx, default):
    kind = case["grid"] or "latlon"
    dx, dy = case["dx"] or default[kind], case["dy"] or default[kind]
    corner = case["corner"] or [-(ny - 1) * dy / 2, -(nx - 1) * dx / 2]
    names = ["latitude", "longitude"] if kind == "latlon" else ["projection_y_coordinate", "projection_x_coordinate"]
    for name, n, d, start in zip(names, (ny, nx), (dy, dx), corner):
        x = cube.coord(name)
        want = start + d * np.arange(n)
        o.close(x.points, want, name, rtol=1e-6, atol=1e-5 * d)
        o.equal(str(x.dtype), "float32", name)
        o.check(x.units == ("degrees" if kind == "latlon" else "m"), f"{name} is in {x.units}")
        o.check(x.coord_system is not None, "coordinate system")
        if n > 1:
            o.close(x.bounds, np.stack([want - d / 2, want + d / 2], -1), "bounds of " + name, rtol=1e-6, atol=1e-4 * d)
        else:
            o.check(x.bounds is None, "bounds of %s", name)
    return names


def check_lead(cube, case, size, kind, name, units):
    """The leading coordinate, if there is one; its length."""
    values = lead_values(case)
    from vp import cubes as c

    crd = {"variable": "realization", "percentile": "percentile",
           "probability": name.replace("_in_vicinity", "")}[kind]
    x = cube.coord(crd)
    if values is None:
        o.equal((x.points.tolist(), str(x.dtype)), (list(range(size)), "int32"), crd)
    else:
        o.close(x.points, np.array(values, np.float32), crd, rtol=1e-6, atol=0)
        if not case["whole"]:
            o.equal(str(x.dtype), "float32", "type of " + crd)
    if kind == "percentile":
        o.equal(str(x.units), "%", "units")
    elif kind == "probability":
        o.equal((str(x.units), x.var_name, x.attributes.get("spp__relative_to_threshold")),
                (units, "threshold", case["spp"] or "greater_than"), "threshold coordinate")
    else:
        o.equal(str(x.units), "1", "units")
    _ = c
    return crd


def check_height(cube, case):
    name = "pressure" if case["pressure"] else "height"
    x = cube.coord(name)
    o.close(x.points, np.array(case["heights"], float), name, rtol=1e-6, atol=0)
    o.equal((str(x.units), x.attributes.get("positive")), ("Pa", "down") if case["pressure"] else ("m", "up"), name)
    return name


def from_grid(case):
    """The attributes of the standard grid asked for."""
    model = case["mosg"]
    if model is None:
        return {}
    out = {"mosg__model_configuration": model}
    if GRIDS[model]:
        out.update(mosg__grid_type="standard", mosg__grid_domain=GRIDS[model], mosg__grid_version="1.3.0")
    return out


def near_by(case):
    """Probabilities may be of something happening near by."""
    if case["kind"] == "probability" and case["vicinity"]:
        case["units"] = case["units"] or NAMES[case["name"]]
        case["name"] += "_in_vicinity"


def full_name(case):
    if case["kind"] != "probability":
        return case["name"]
    side = "below" if (case["spp"] or "greater_than")[0] in "bl" else "above"
    return "probability_of_%s_%s_threshold" % (case["name"], side)


# ---------------------------------------------------------------- metadata cubes
def gen_metadata():
    from vp import gens as g

    @g.composite
    def case(draw):
        out = options(draw, g)
        out.update(npoints=draw(g.integers(1, 4)), usual=draw(g.booleans()), none=draw(g.booleans()),
                   bad=draw(g.sampled([None] * 12 + ["type", "grid", "corner", "attribute", "json"])))
        return out

    return case()


def run_metadata(case):
    from improver.metadata.check_datatypes import check_mandatory_standards
    from improver.synthetic_data.generate_metadata import generate_metadata
    from improver.synthetic_data.utilities import get_height_levels, get_leading_dimension

    case = dict(case)
    kind, bad = case["kind"], case["bad"]
    case["blend"] = None if case["blend"] == "other" else case["blend"]
    if case["name"] == "my_own" and kind == "probability" and case["units"] is None:
        case["units"] = "K"
    if case["spp"] == "odd" and kind != "probability":
        case["spp"] = None
    near_by(case)
    if kind != "variable" and case["lead"] is None:
        case["lead"] = [10, 20]
    attrs = {"title": "T", "institution": "I", "source": "S"}
    # as the command line does from its JSON input
    coords = {}
    if case["lead"] is not None:
        coords[{"variable": "realizations", "percentile": "percentiles", "probability": "thresholds"}[kind]] = \
            lead_values(case)
    if case["heights"] is not None:
        case["heights"] = [x * case["scale"] for x in case["heights"]]
        coords["pressures" if case["pressure"] else "heights"] = list(case["heights"])
    if bad == "json":
        both = [("realizations", "percentiles"), ("realizations", "thresholds"), ("percentiles", "thresholds")]
        coords.update({x: [10, 20] for x in both[case["npoints"] % 3]})
        o.raises(ValueError, get_leading_dimension, coords)
        return True
    lead, cube_type = get_leading_dimension(coords)
    heights, pressure = get_height_levels(coords)
    kw = {"name": case["name"], "npoints": case["npoints"], "cube_type": cube_type}
    time, ref = times(case)
    if not case["usual"]:
        for x in ("hour", "ref", "dx", "dy", "grid"):
            case[x] = None
        time = ref = None
    if case["spp"]:
        kw["spp__relative_to_threshold"] = case["spp"]
    if case["units"]:
        kw["units"] = case["units"]
    if lead is not None:
        kw["leading_dimension"] = lead
    kw["ensemble_members"] = case["members"]
    if heights is not None:
        kw.update(height_levels=heights, pressure=pressure)
    for key, x in (("spatial_grid", case["grid"]), ("x_grid_spacing", case["dx"]), ("y_grid_spacing", case["dy"]),
                   ("domain_corner", case["corner"]), ("time", time), ("time_period", case["period"])):
        if x is not None:
            kw[key] = x
        elif case["none"] and key in ("x_grid_spacing", "y_grid_spacing", "domain_corner"):
            kw[key] = None
    if case["blend"] == "only":
        kw["blend_time"] = ref or START
    elif case["blend"] == "same":
        kw["blend_time"] = kw["frt"] = ref or START
    elif ref:
        kw["frt"] = ref
    if case["extra"]:
        kw["attributes"] = dict(case["extra"])
    if case["mosg"]:
        kw["standard_grid_metadata"] = case["mosg"]
    validity = time or datetime.datetime(2017, 11, 10, 4)
    early = validity < (ref or START)
    odd = case["spp"] == "odd"
    unknown = case["name"] == "my_own" and not case["units"]
    if bad == "type":
        kw["cube_type"] = "other"
    elif bad == "grid":
        kw["spatial_grid"] = "polar"
        kw.update(x_grid_spacing=1, y_grid_spacing=1)
    elif bad == "corner":
        kw["domain_corner"] = [1.0]
    if bad == "attribute":
        kw["attributes"] = dict(kw.get("attributes", {}), source=attrs.pop("source"))
        if not (early or odd or unknown):
            o.raises(KeyError, generate_metadata, attrs, **kw)
        return True
    if bad or early or odd or unknown:
        o.raises(ValueError, generate_metadata, attrs, **kw)
        return True
    keep = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    cube = generate_metadata(attrs, **kw)
    o.equal(kw, keep, "arguments")
    o.equal(attrs, {"title": "T", "institution": "I", "source": "S"}, "attributes given")
    check_mandatory_standards(cube)
    units = case["units"] or NAMES[case["name"]]
    n = case["npoints"]
    names = check_grid(cube, case, n, n, {"latlon": 0.02, "equalarea": 2000})
    size = len(lead) if lead is not None else case["members"]
    dims = []
    if lead is not None or size > 1:
        dims.append((check_lead(cube, case, size, kind, case["name"], units), size))
    else:
        o.check(not cube.coords("realization"), "a realization")
    if heights is not None:
        dims.append((check_height(cube, case), len(heights)))
    dims += [(x, n) for x in names]
    o.equal([x.name() for x in cube.coords(dim_coords=True)], [x for x, k in dims if k > 1], "dimensions")
    o.equal((cube.shape, str(cube.dtype)), (tuple(k for x, k in dims if k > 1), "float32"), "data")
    o.check(not np.any(cube.data), "values")
    o.equal((cube.name(), str(cube.units)), (full_name(case), "1" if kind == "probability" else units), "result")
    bounds = None
    if case["period"]:
        bounds = [validity - datetime.timedelta(minutes=case["period"]), validity]
    check_times(cube, case, bounds)
    o.equal(dict(cube.attributes), dict(from_grid(case), **dict(case["extra"] or {}, **attrs)), "attributes")
    o.label(kind, "heights" if heights else None, "single" if size == 1 else None)
    return bool(lead or heights or bounds)


# ---------------------------------------------------------------- cubes of given data
def gen_cubes():
    from vp import gens as g

    @g.composite
    def case(draw):
        out = options(draw, g)
        ny, nx = draw(g.integers(1, 3)), draw(g.integers(1, 3))
        out.update(ny=ny, nx=nx, spot=draw(g.integers(0, 2)) == 0, dtype=draw(g.sampled(["f4", "f4", "f4", "i4", "f8"])),
                   mask=draw(g.booleans()), seed=draw(g.integers(0, 99)),
                   bounds=draw(g.one_of(g.just(None), g.fixed(2, g.integers(-3, 3)))),
                   sites=draw(g.sampled([None, "some"])), ids=draw(g.sampled([None, "ids", "nokey"])),
                   lead_dim=draw(g.integers(0, 3)) > 0, bad=draw(g.sampled([None] * 10 + ["length", "dims"])),
                   scalar=draw(g.booleans()),
                   add=draw(g.sampled([None, None, "time", "forecast_reference_time", "height", "new"])),
                   points=sorted(draw(g.lists(g.integers(13, 60), min_size=1, max_size=3, unique=True))),
                   order=draw(g.booleans()))
        return out

    return case()


def run_cubes(case):
    from improver.metadata.check_datatypes import check_mandatory_standards
    from improver.synthetic_data import set_up_test_cubes as s
    from vp import cubes as c

    case, kind, spot, bad = dict(case), case["kind"], case["spot"], case["bad"]
    if case["name"] == "my_own":
        case["units"] = case["units"] or "K"
    near_by(case)
    if kind != "variable" and case["lead"] is None:
        case["lead"] = [10, 20]
    if kind != "variable":
        case["lead_dim"] = True
    if kind != "probability":
        case["spp"] = None
    lead, heights = lead_values(case), case["heights"]
    size = len(lead) if lead is not None else case["members"]
    if not case["lead_dim"]:
        lead, case["lead"] = None, None
    space = [case["nx"]] if spot else [case["ny"], case["nx"]]
    shape = ([size] if case["lead_dim"] else []) + ([len(heights)] if heights is not None else []) + space
    data = np.random.RandomState(case["seed"]).randint(0, 9, shape).astype(case["dtype"])
    if case["mask"]:
        data = np.ma.MaskedArray(data, data > 5)
    kw, pos = {}, []
    time, ref = times(case)
    validity = time or datetime.datetime(2017, 11, 10, 4)
    if time:
        kw["time"] = time
    start = ref or START
    if case["blend"] == "only":
        kw["blend_time"] = start
    elif case["blend"] in ("same", "other"):
        kw["blend_time"] = kw["frt"] = start
        if case["blend"] == "other":
            kw["blend_time"] = start - datetime.timedelta(hours=1)
    elif ref:
        kw["frt"] = ref
    bounds, outside = None, False
    if case["bounds"] is not None:
        bounds = [validity + datetime.timedelta(hours=h) for h in case["bounds"]]
        kw["time_bounds"] = list(bounds)
        bounds = sorted(bounds)
        outside = not bounds[0] <= validity <= bounds[1]
    units = case["units"] or NAMES[case["name"]]
    if kind == "probability":
        kw.update(variable_name=case["name"], threshold_units=units)
        if case["spp"]:
            kw["spp__relative_to_threshold"] = case["spp"]
        pos = [lead]
    else:
        kw.update(name=case["name"], units=units)
        if kind == "percentile":
            pos = [lead]
        elif lead is not None:
            kw["realizations"] = lead
    if heights is not None:
        kw.update(height_levels=list(heights), pressure=case["pressure"])
    if case["extra"]:
        kw["attributes"] = dict(case["extra"])
    if case["mosg"]:
        kw["standard_grid_metadata"] = case["mosg"]
    extra = None
    if case["scalar"]:
        from iris.coords import AuxCoord

        extra = AuxCoord(np.int32(7), long_name="mine")
        kw["include_scalar_coords"] = [extra]
    n = case["nx"]
    where = {"latitudes": np.linspace(-20, 30, n), "longitudes": np.linspace(7, 9, n), "altitudes": np.arange(n) - 2.0,
             "wmo_ids": [3 + 100 * i for i in range(n)]}
    if spot:
        if case["sites"]:
            kw.update({k: np.asarray(v, np.float32) if k != "wmo_ids" else v for k, v in where.items()})
        if case["ids"]:
            kw["unique_site_id"] = [12 + 1000 * i for i in range(n)]
            if case["ids"] == "ids":
                kw["unique_site_id_key"] = "met_office_site_id"
    else:
        for key, x in (("spatial_grid", case["grid"]), ("x_grid_spacing", case["dx"]),
                       ("y_grid_spacing", case["dy"]), ("domain_corner", case["corner"])):
            if x is not None:
                kw[key] = x
    make = getattr(s, "set_up_%s%s_cube" % ("spot_" if spot else "", kind))
    wrong = validity < start or outside or case["dtype"] == "f8" or case["blend"] == "other" or case["spp"] == "odd" \
        or (spot and case["ids"] == "nokey")
    if bad == "length":
        if lead is None:
            o.reject("no values")
        wrong = True
        pos = [x + [95] for x in pos]
        if kind == "variable":
            kw["realizations"] = lead + [95]
    elif bad == "dims":
        wrong = True
        data = data.reshape((1, 1, 1) + data.shape)
    if wrong:
        o.raises(ValueError, make, data, *pos, **kw)
        return True
    was = data.copy()
    cube = make(data, *pos, **kw)
    check_mandatory_standards(cube)
    # ------------------------------------------------ values and coordinates
    squeezed = kind != "variable" and size == 1
    want = was[0] if squeezed else was
    o.equal(np.ma.getmaskarray(cube.data).tolist(), np.ma.getmaskarray(want).tolist(), "mask")
    o.equal(np.ma.getdata(cube.data).tolist(), np.ma.getdata(want).tolist(), "values")
    o.equal(str(cube.dtype), str(was.dtype), "type")
    dims = []
    if case["lead_dim"]:
        x = check_lead(cube, case, size, kind, case["name"], units)
        if not squeezed:
            dims.append(x)
    if heights is not None:
        dims.append(check_height(cube, case))
    if spot:
        dims.append("spot_index")
        where["wmo_ids"] = ["%05d" % x for x in where["wmo_ids"]]
        if not case["sites"]:
            where = {"latitudes": np.linspace(50, 60, n), "longitudes": np.linspace(-5, 5, n), "altitudes": np.ones(n),
                     "wmo_ids": ["%05d" % i for i in range(n)]}
        for key, name in (("latitudes", "latitude"), ("longitudes", "longitude"), ("altitudes", "altitude")):
            o.close(cube.coord(name).points, where[key], name, rtol=1e-6, atol=1e-6)
        o.equal([str(x) for x in cube.coord("wmo_id").points], where["wmo_ids"], "wmo_id")
        if case["ids"]:
            x = cube.coord("met_office_site_id")
            o.equal([str(y) for y in x.points], ["%08d" % (12 + 1000 * i) for i in range(n)], "site identifiers")
            o.equal(x.attributes.get("unique_site_identifier"), "true", "site identifiers")
    else:
        dims += check_grid(cube, case, case["ny"], case["nx"], {"latlon": 10, "equalarea": 2000})
    o.equal([x.name() for x in cube.coords(dim_coords=True)], dims, "dimensions")
    o.equal((cube.name(), str(cube.units)), (full_name(case), "1" if kind == "probability" else units), "result")
    check_times(cube, case, bounds)
    o.equal(dict(cube.attributes), dict(from_grid(case), **(case["extra"] or {})), "attributes")
    if extra is not None:
        o.same_coord(cube.coord("mine"), extra)
    o.label(kind, "spot" if spot else "grid", case["add"])
    # ------------------------------------------------ adding a coordinate
    add, pts = case["add"], case["points"]
    if add and not (add == "height" and heights is not None) and bounds is None and case["blend"] is None:
        before = o.snapshot(cube)
        kwargs = {}
        if add in ("time", "forecast_reference_time"):
            base = START if add == "time" else START - datetime.timedelta(days=5)
            if add == "time":
                base += datetime.timedelta(hours=case["hour"] or 0)
            given = [base + datetime.timedelta(hours=x) for x in pts]
            kwargs["is_datetime"] = True
        else:
            given, kwargs = list(pts), {"coord_units": "m"}
            if add == "new":
                kwargs.update(dtype=np.int32, attributes={"a": "b"})
            add = {"new": "my_coordinate"}.get(add, add)
        nd = cube.ndim
        if case["order"] and len(pts) > 1 and nd:
            kwargs["order"] = list(range(1, nd + 1)) + [0]
        res = s.add_coordinate(cube, given, add, **kwargs)
        o.unchanged(before, cube)
        x = res.coord(add)
        want = [seconds(t) for t in given] if "is_datetime" in kwargs else given
        o.equal(x.points.tolist(), want, add)
        o.equal(str(x.dtype), {"height": "float32", "my_coordinate": "int32"}.get(add, "int64"), "type of " + add)
        if len(pts) > 1:
            place = nd if "order" in kwargs else 0
            o.equal((res.coord_dims(add), res.shape[place]), ((place,), len(pts)), "place of " + add)
            parts = np.moveaxis(np.ma.getdata(res.data), place, 0)
        else:
            parts = [res.data]
        for q in parts:
            o.equal(np.ma.getdata(q).tolist(), np.ma.getdata(cube.data).tolist(), "values")
        if "is_datetime" in kwargs:
            other = seconds(ref or START) if add == "time" else seconds(validity)
            lags = [(w - other) * (1 if add == "time" else -1) for w in want]
            o.equal(res.coord("forecast_period").points.tolist(), lags, "forecast periods")
        _ = c
    return bool(dims and (lead or heights or bounds or add))


SUBS = {"metadata": Sub(gen_metadata, run_metadata), "cubes": Sub(gen_cubes, run_cubes)}
