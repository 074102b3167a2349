"""C43: the metadata interpreter accepts exactly the compliant cubes and says what they are."""
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: cubes of every kind the interpreter knows (probabilities, percentiles, realizations, "
        "weather codes, wind directions, ancillaries) on grids and at sites, from each model, blended, "
        "or of no model, with cell methods and periods, and with up to two of 30 departures from the "
        "standard; non-trivial when there is something wrong, a cell method, or a blend")
QUICK = 8000
THOROUGH = 40000
MODELS = {"nc_det": "Nowcast", "gl_det": "Global", "gl_ens": "MOGREPS-G", "uk_ens": "MOGREPS-UK", "uk_det": "UKV"}
ID, RUN = "mosg__model_configuration", "mosg__model_run"
RELATIVE = {"greater_than": "above", "greater_than_or_equal_to": "above", "less_than": "below",
            "less_than_or_equal_to": "below", "between_thresholds": "between"}

WRONG = {"prob": ["units", "threshold name", "var_name", "no spp", "bad spp", "other way", "no comment"],
         "perc": ["percentile name", "percentile units"],
         "diag": ["realizations", "wrong mean"],
         "code": ["mode", "no meaning"], "direction": ["wrong mean over time"], "ancil": ["methods"],
         "any": ["forbidden", "no title", "no source", "no time", "no period", "no reference", "time point",
                 "period point", "float64", "time type", "model title", "model code", "point method",
                 "no bounds", "no model id", "no run", "other code", "spot title", "no wmo", "no altitude"]}


def gen():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none",), pos=False))
        kind = draw(g.sampled(["prob", "prob", "perc", "diag", "diag", "code", "direction", "ancil", "other"]))
        wrong = WRONG["any"] + 2 * WRONG.get(kind, []) + ["sum over", "sum over", "no bounds", "no comment"]
        if draw(g.integers(0, 2)) == 0:
            wrong = ["no model id", "no run", "other code", "no cycle", "model title", "model code", "spot title"]
        return {"lay": lay, "kind": kind, "spp": draw(g.sampled(sorted(RELATIVE))),
                "name": draw(g.sampled(["air_temperature", "wind_speed", "rainfall_rate",
                                        "lwe_thickness_of_precipitation_amount", "wind_gust"])),
                "model": draw(g.sampled([None, "blend", "blend"] + sorted(MODELS))),
                "models": draw(g.lists(g.sampled(sorted(MODELS)), min_size=1, max_size=3, unique=True)),
                "title": draw(g.sampled(["plain", "model", "post"])), "period": draw(g.booleans()),
                "cm": draw(g.sampled([None, None, "max", "minimum", "maximum", "sum", "variance"])),
                "comment": draw(g.sampled(["of {}", "of {} over 20km within time window"])),
                "members": draw(g.integers(0, 3)), "extra": draw(g.integers(0, 5)) == 0,
                "hours": draw(g.sampled([1, 3])), "usual": draw(g.booleans()),
                "ancil": draw(g.sampled(["surface_altitude", "land_binary_mask", "linke_turbidity"])),
                "other": draw(g.sampled(["grid_neighbours", "emos_coefficient_beta", "grid_eastward_wind"])),
                "wrong": draw(g.one_of(g.just([]), g.lists(g.sampled(wrong), min_size=1, max_size=2,
                                                           unique=True)))}

    return case()


def run(case):
    from improver.developer_tools.metadata_interpreter import MOMetadataInterpreter, display_interpretation
    from iris.coords import AuxCoord, CellMethod
    from vp import cubes as c

    kind, wrong, model, lay = case["kind"], list(case["wrong"]), case["model"], case["lay"]
    if kind == "ancil" and model == "blend":
        model = None
    blend = model == "blend"
    name = case["name"] if kind in ("prob", "perc", "diag") else {
        "code": "weather_code", "direction": "wind_from_direction", "ancil": case["ancil"]}.get(kind, case["other"])
    accum = name.startswith("lwe") and kind != "ancil"
    cm = case["cm"]
    if kind in ("code", "direction"):
        cm = None
    if accum:
        cm = ("maximum" if case["usual"] else None) if "sum over" in wrong else "sum"
    if kind == "ancil":
        cm = "max" if "methods" in wrong else None
    period = case["period"] or bool(cm) or (kind == "code" and case["usual"])
    if kind == "ancil" and "methods" not in wrong:
        period = False
    done = []          # the departures that are made

    def broken(what, key=""):
        done.append((what, key))
        return True

    if accum and cm != "sum":
        broken("sum over", "lwe")
    # ------------------------------------------------ attributes
    title = {"plain": "Forecast", "model": "%s Model Forecast" % MODELS.get(model, "New"),
             "post": "Post-Processed Forecast"}[case["title"]]
    if blend:
        title = "IMPROVER Post-Processed Multi-Model Blend"
    if "model title" in wrong and model in MODELS and kind not in ("ancil", "other"):
        title = "%s Model Forecast" % MODELS[sorted(set(MODELS) - {model, "gl_ens", "uk_ens", "gl_det"})[0]]
        broken("model title", "inconsistent")
    spots = " on UK 2 km Standard Grid"
    if lay["spot"]:
        spots = " UK Spot Values"
        if "spot title" in wrong and kind != "other" and "no title" not in wrong:
            spots = " UK Values"
            broken("spot title", "spot")
    attrs = {"title": title + spots, "source": "IMPROVER", "institution": "Met Office"}
    codes = case["models"]
    if blend:
        attrs[ID] = " ".join(codes)
        attrs[RUN] = "\n".join("%s:20171110T0%d00Z:%.3f" % (x, i, 1.0 / len(codes)) for i, x in enumerate(codes))
        if "no title" not in wrong and kind != "other":
            if "no model id" in wrong:
                del attrs[ID]
                broken("no model id", ID)
            if "no run" in wrong:
                del attrs[RUN]
                broken("no run", RUN)
            if "no cycle" in wrong and ID in attrs and RUN in attrs:
                lines = attrs[RUN].split("\n")
                attrs[RUN] = "\n".join(lines[1:] or ["nothing:20171110T0000Z:1.000"])
                broken("no cycle", codes[0])
            if "other code" in wrong and ID in attrs and RUN in attrs:
                attrs[ID] += " xx_det"
                broken("other code", "xx_det")
    elif model:
        attrs[ID] = model
        if "model code" in wrong and kind not in ("ancil", "other") and "no title" not in wrong:
            attrs[ID] = "xx_ens"
            broken("model code", "xx_ens")
            done[:] = [x for x in done if x[0] != "model title"] + [("model code", "xx_ens")]
    if kind == "code":
        attrs.update(weather_code="0 1", weather_code_meaning="a b")
        if "no meaning" in wrong:
            del attrs["weather_code_meaning"]
            broken("no meaning", "weather_code_meaning")
    if name == "wind_gust":
        attrs["wind_gust_diagnostic"] = "Typical gusts"
        if "no meaning" in wrong or "forbidden" in wrong:
            del attrs["wind_gust_diagnostic"]
            broken("no gust", "wind_gust_diagnostic")
    if "forbidden" in wrong and kind != "other":
        attrs["mosg__grid_domain"] = "uk"
        broken("forbidden", "mosg__grid_domain")
    if case["extra"]:
        attrs["colour"] = "red"
    for x in ("title", "source"):
        if "no " + x in wrong and kind not in ("ancil", "other"):
            del attrs[x]
            broken("no " + x, x)
            if x == "title":
                # neither the model nor a blend is looked for
                done[:] = [y for y in done if y[0] not in ("model title", "model code")]
    if kind == "ancil" and case["usual"]:
        # (ancillaries need none of these)
        for x in ["title", "source", "institution"][case["hours"] - 1:]:
            del attrs[x]
            done[:] = [y for y in done if y[0] != "spot title" or "title" in attrs]
    # ------------------------------------------------ the field
    shape = tuple(lay["inner"])
    t = dict(lay["times"], period=3600 if period else None)
    data, lead, full = np.zeros(shape, np.float32), [], name
    units = "1" if kind in ("prob", "code") else {"air_temperature": "K", "wind_speed": "m s-1",
                                                  "surface_altitude": "m", "land_binary_mask": "1"}.get(name, "m")
    relative = None
    if kind == "prob":
        relative = case["spp"]
        full = "probability_of_%s_%s_threshold%s" % (name, RELATIVE[relative], "s" * (relative[0] == "b"))
        right = full
        if "units" in wrong:
            units = "K"
            broken("units", "K")
        if "other way" in wrong and "bad spp" not in wrong and relative != "between_thresholds":
            full = full.replace("above", "BELOW").replace("below", "above").replace("BELOW", "below")
            broken("other way", relative)
        crd = c.threshold_coord([1.0, 2.0], name, "m s-1" if "speed" in name else "K", relative)
        if "threshold name" in wrong:
            crd = c.threshold_coord([1.0, 2.0], "mistake", "K", relative)
            broken("threshold name", name)
        if "var_name" in wrong:
            crd.var_name = None
            broken("var_name", name)
        if "no spp" in wrong:
            crd.attributes.pop("spp__relative_to_threshold")
            broken("no spp", "spp__relative_to_threshold")
        elif "bad spp" in wrong:
            crd.attributes["spp__relative_to_threshold"] = relative = "roughly"
            broken("bad spp", "roughly")
        lead = [crd]
    elif kind == "perc":
        crd = c.percentile_coord([20, 70])
        if "percentile units" in wrong:
            crd.units = "1"
            broken("percentile units", "%")
        if "percentile name" in wrong:
            crd.rename("percentile_over_time")
            broken("percentile name", "percentile_over_time")
        lead = [crd]
    elif kind == "diag" and case["members"]:
        n = case["members"]
        if "realizations" in wrong:
            n = max(n, 2)
        # the names of the models of blends count together
        ens = "ens" in attrs.get(ID, "ens")
        if not ens and n > 1 and "realizations" not in wrong:
            n = 1
        lead = [c.realization_coord(np.arange(n))]
        if not ens and n > 1:
            broken("realizations", "%d" % n)
    data = np.zeros(tuple(len(x.points) for x in lead) + shape, np.float32)
    scalars = c.time_coords(t)
    if blend:
        time, frt, fp = scalars
        new = frt.copy()
        new.rename("blend_time")
        new.standard_name, new.long_name = None, "blend_time"
        scalars = [time, new]
    missing = {"no time": "time", "no period": "forecast_period",
               "no reference": "blend_time" if blend else "forecast_reference_time"}
    for what, x in missing.items():
        if what in wrong and kind not in ("ancil", "other") and x in [y.name() for y in scalars]:
            if x == "time" and cm:
                continue
            if blend and "no title" in wrong:
                continue
            scalars = [y for y in scalars if y.name() != x]
            broken(what, x)
    if blend and "no title" in wrong and kind not in ("ancil", "other"):
        broken("no title on a blend", "forecast_reference_time")
    for what, x in (("time point", "time"), ("period point", "forecast_period")):
        for y in scalars:
            if what in wrong and y.name() == x and y.has_bounds() and kind != "other":
                b = y.bounds
                y.bounds = None
                y.points = y.points - 1800
                y.bounds = b
                broken(what, x)
    if "no bounds" in wrong and cm in ("max", "minimum", "maximum", "sum") and kind in ("prob", "perc", "diag"):
        for y in scalars:
            y.bounds = None
        done[:] = [x for x in done if x[0] not in ("time point", "period point")]
        broken("no bounds", "time bounds")
    if "float64" in wrong and kind != "other":
        data = data.astype(np.float64)
        broken("float64", "float64")
    if "time type" in wrong and kind != "other" and any(x.name() == "time" for x in scalars):
        y = [x for x in scalars if x.name() == "time"][0]
        b = y.bounds
        y.bounds = None
        y.points = y.points.astype(np.int32)
        y.bounds = None if b is None else b.astype(np.int32)
        broken("time type", "int32")
    if lay["spot"]:
        cube = c.spot_cube(data, full, units, shape[-1], lead=lead, scalars=scalars, attributes=attrs)
        for what, x in (("no wmo", "wmo_id"), ("no altitude", "altitude")):
            if what in wrong and kind != "other":
                cube.remove_coord(x)
                broken(what, x)
    else:
        cube = c.new_cube(data, full, units, lead + c.yx_coords(lay["grid"]), scalars, attrs)
    # ------------------------------------------------ cell methods
    methods, text, warned = [], "", []
    if kind in ("prob", "perc", "diag"):
        if cm in ("max", "minimum", "maximum", "sum"):
            comment = case["comment"].format(name) if kind == "prob" else ()
            if "no comment" in wrong and kind == "prob" and full == right:
                comment = "of nothing" if case["usual"] else ()
                broken("no comment", "of " + name)
            if "point method" in wrong:
                methods.append(CellMethod("point", "time"))
                broken("point method", "point")
            methods.append(CellMethod(cm, "time", comments=comment))
            text = " %s over time" % cm
        elif cm:
            methods.append(CellMethod(cm, "time"))
            warned.append(cm)
        if "wrong mean" in wrong and kind == "diag":
            methods.append(CellMethod("mean", "realization"))
            broken("wrong mean", "mean")
    elif kind == "code":
        if "mode" in wrong:
            methods.append(CellMethod("mode", "time", "%d hour" % (case["hours"] + 1)))
            broken("mode", "mode")
        elif case["usual"]:
            methods.append(CellMethod("mode", "time", "%d hour" % case["hours"]))
            text = "mode of %d hour weather code over time" % case["hours"]
    elif kind == "direction":
        if "wrong mean over time" in wrong:
            methods.append(CellMethod("mean", "time"))
            broken("wrong mean over time", "mean")
        elif case["usual"]:
            methods.append(CellMethod("mean", "realization"))
    elif kind == "ancil" and cm:
        methods.append(CellMethod("maximum", "time"))
        broken("methods", "maximum")
    for x in methods:
        cube.add_cell_method(x)
    before = o.snapshot(cube)
    interpreter = MOMetadataInterpreter()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            interpreter.run(cube)
            said = None
        except ValueError as err:
            said = str(err)
    o.unchanged(before, cube)
    o.label(kind, "blend" if blend else None, *(x for x, _ in done))
    if done:
        o.check(said is not None, "accepted with %s", done)
        for what, key in done:
            o.check(key in said, "%s not reported (%s): %s", what, key, said)
        return True
    o.check(said is None, "refused: %s", said)
    # ------------------------------------------------ the description
    plain = display_interpretation(interpreter)
    full_text = display_interpretation(interpreter, verbose=True)
    lines = plain.rstrip("\n").split("\n")
    o.equal([x for x in full_text.rstrip("\n").split("\n") if not x.startswith("    Source: ")], lines,
            "description with its sources")
    if kind == "other":
        o.check(len(lines) == 1 and name in lines[0] and "not handled" in lines[0], "description: %s", plain)
        return False
    product = "spot" if lay["spot"] else "gridded"
    field = {"prob": "probabilities", "perc": "percentiles", "diag": "realizations", "ancil": "ancillary"}.get(
        kind, name.replace("_", " "))
    o.check(product in lines[0] and field in lines[0], "first line: %s", lines[0])
    words = name.replace("_", " ")
    if kind in ("prob", "perc", "diag"):
        want = "It contains %s of %s" % (field, words)
        if relative:
            want += " %s thresholds" % relative.replace("_", " ")
        o.check(want in lines, "contents '%s' in %s", want, lines)
        o.equal([x for x in lines if x.startswith("These ")],
                ["These %s are of %s%s" % (field, words, text)] if text else [], "methods")
        some = "some" if blend or case["title"] == "post" else "no"
        o.check("It has undergone %s significant post-processing" % some in lines, "processing: %s", lines)
    elif kind == "code" and text:
        o.check("These weather code are " + text in lines, "methods: %s", lines)
    if kind == "ancil":
        o.check("This is a static ancillary with no time information" in lines, "ancillary: %s", lines)
    elif blend:
        names = ["%s (cycle: 20171110T0%d00Z)" % (MODELS[x], i) for i, x in enumerate(codes)]
        o.check("It contains blended data from models: " + ", ".join(names) in lines, "blend: %s", lines)
    elif model:
        o.check("It contains data from " + MODELS[model] in lines, "model: %s", lines)
    else:
        o.check("It has no source model information and cannot be blended" in lines, "no model: %s", lines)
    if case["extra"]:
        warned.append("colour")
    if relative == "between_thresholds":
        warned.append("etween thresholds")
    o.equal("WARNINGS:" in lines, bool(warned), "warnings: %s" % lines)
    for x in warned:
        o.check(x in plain, "warning of %s: %s", x, plain)
    return bool(methods or blend)


SUBS = {"interpret": Sub(gen, run)}
