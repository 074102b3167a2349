"""C17: weighting and blending models or cycles from end to end."""
import numpy as np

from vp import oracle as o
from vp import refs
from vp.registry import Sub

RULE = ("cases: one to four forecasts of one validity time from different models or cycles, in any "
        "order, with masks, thresholds, attributes, existing records of runs, weights by "
        "dictionary, linear or exponential, with zeros, with or without spatial weights, used "
        "once or twice on one plugin; non-trivial when at least two inputs that differ have "
        "weight")
QUICK = 2200
THOROUGH = 30000
T0 = 1510286400


def gen_blend():
    from vp import gens as g

    @g.composite
    def one(draw, k, mode):
        ny, nx = draw(g.integers(2, 4)), draw(g.integers(2, 4))
        thr = draw(g.sampled([0, 0, 2]))
        shape = [k] + ([thr] if thr else []) + [ny, nx]
        if mode == "model":
            frts = draw(g.fixed(k, g.integers(0, 5)))
        else:
            frts = draw(g.lists(g.integers(0, 8), min_size=k, max_size=k, unique=True))
        return {"ny": ny, "nx": nx, "thr": thr, "frts": frts,
                "values": draw(g.field(shape, g.grid_ints(0, 1, 0.125))),
                "masks": [draw(g.mask([ny, nx])) for _ in range(k)],
                "use_mask": draw(g.sampled([False, True])),
                "record": draw(g.fixed(k, g.sampled([0, 0, 1, 2]))),
                "titles": draw(g.booleans()), "period": draw(g.sampled([None, 3600]))}

    @g.composite
    def case(draw):
        k = draw(g.sampled([1, 2, 2, 3, 3, 4]))
        mode = draw(g.sampled(["model", "model", "cycle"]))
        first = draw(one(k, mode))
        return {
            "k": k, "mode": mode, "first": first,
            "second": draw(one(k, mode)) if draw(g.integers(0, 3)) == 0 else None,
            "names": draw(g.sampled([["uk_det", "uk_ens", "nc_det", "gl_ens"],
                                     ["gl_ens", "nc_det", "uk_ens", "uk_det"]])),
            "wts": draw(g.fixed(k, g.fixed(2, g.sampled([0, 0, 0.25, 0.5, 1, 1, 0.002])))),
            "method": draw(g.sampled(["linear", "nonlinear"])),
            "y0": draw(g.sampled([1.0, 0.0, 3.0])), "yn": draw(g.sampled([1.0, 2.0, 0.0])),
            "cval": draw(g.sampled([1.0, 0.5, 0.85, 0.05])), "inverse": draw(g.booleans()),
            "spatial": draw(g.booleans()), "fuzzy": draw(g.sampled([2000.0, 4000.0, 5000.0])),
            "record_run": draw(g.booleans()), "cycle": draw(g.sampled([0, 0, 1, None])),
            "attr": draw(g.booleans()), "model_attr": draw(g.booleans()),
        }

    return case()


def stamp(seconds):
    import datetime

    return datetime.datetime.utcfromtimestamp(seconds).strftime("%Y%m%dT%H%MZ")


def inputs(case, d):
    from vp import cubes as c

    k = case["k"]
    grid = {"kind": "laea", "ny": d["ny"], "nx": d["nx"], "dy": 2000, "dx": 2000, "y0": 0,
            "x0": 0}
    shape = [k] + ([d["thr"]] if d["thr"] else []) + [d["ny"], d["nx"]]
    vals = np.array(d["values"], np.float32).reshape(shape)
    mask = np.zeros([k, d["ny"], d["nx"]], bool)
    if d["use_mask"]:
        for i, m in enumerate(d["masks"]):
            if m is not None:
                mask[i] = np.array(m, bool).reshape(d["ny"], d["nx"])
    validity = T0 + 12 * 3600
    cubes = []
    records = []
    for i in range(k):
        frt = T0 + 3600 * d["frts"][i]
        name = case["names"][i] if case["mode"] == "model" else "uk_ens"
        data = vals[i]
        if mask.any():
            data = np.ma.masked_array(data, np.broadcast_to(mask[i], data.shape))
        lead = [c.threshold_coord([273.0, 280.0], "air_temperature", "K")] if d["thr"] else []
        attrs = {"title": "Forecast %d" % i if d["titles"] else "Forecast",
                 "source": "IMPROVER", "institution": "Met Office",
                 "mosg__model_configuration": name}
        rec = [["%s:%s" % (name, stamp(frt)), 1.0]]
        if d["record"][i] and case["mode"] == "model":
            n = d["record"][i]
            rec = [["%s:%s" % (name, stamp(frt - 3600 * j)), [1.0, 0.75][n - 1] if j == 0
                    else 0.25] for j in range(n)]
            attrs["mosg__model_run"] = "\n".join(sorted("%s:%.3f" % (a, b) for a, b in rec))
        records.append(rec)
        cubes.append(c.new_cube(
            data, "probability_of_air_temperature_above_threshold" if d["thr"]
            else "lwe_precipitation_rate", "1" if d["thr"] else "m s-1",
            lead + c.yx_coords(grid),
            c.time_coords({"frt": frt, "fp": validity - frt, "period": d["period"]}), attrs))
    return cubes, vals, mask, records, validity


def judge(plugin, case, d):
    k, mode = case["k"], case["mode"]
    cubes, vals, mask, records, validity = inputs(case, d)
    before = [o.snapshot(x) for x in cubes]
    newest = T0 + 3600 * max(d["frts"])
    cyc = None if case["cycle"] is None else newest + 3600 * case["cycle"]
    kw = {"cycletime": None if cyc is None else stamp(cyc), "spatial_weights": case["spatial"],
          "fuzzy_length": case["fuzzy"]}
    record = case["record_run"]
    if mode == "model" or record or case["model_attr"]:
        kw["model_id_attr"] = "mosg__model_configuration"
    if record:
        kw["record_run_attr"] = "mosg__model_run"
    if case["attr"]:
        kw["attributes_dict"] = {"title": "Blended", "institution": "remove"}
    order = list(range(k)) if mode == "model" else list(np.argsort(d["frts"]))
    w = np.zeros(k)
    if mode == "model":
        # weights vary with the period from the blended cycle
        fp = (validity - (newest if cyc is None else cyc)) / 3600.0
        for i in range(k):
            w[i] = np.interp(fp, [4, 16], case["wts"][i])
    elif case["method"] == "linear":
        w[order] = [case["y0"] + (case["yn"] - case["y0"]) * j / max(1.0, k - 1.0)
                    for j in range(k)]
    else:
        seq = [case["cval"] ** j for j in range(k)]
        w[order] = seq[::-1] if case["inverse"] else seq
    if k == 1:
        w[:] = 1
    if (w < 0).any() or w.sum() <= 0:
        o.raises(ValueError, plugin, cubes, **kw)
        o.label("weights refused")
        return False
    w = w / w.sum()
    keep = [i for i in range(k) if w[i] > 0]
    spatial_mask_var = False
    if cyc is None:
        o.raises(ValueError, plugin, cubes, **kw)
        o.label("cycle time is required")
        return False
    res = plugin(cubes, **kw)
    for b, x in zip(before, cubes):
        o.unchanged(b, x)
    # data
    m = mask[keep]
    if len(keep) == 1:
        fw = np.ones([1, d["ny"], d["nx"]])
    elif case["spatial"] and m.any():
        sorted_keep = keep
        fw, _, _ = refs.spatial_weights(mask[sorted_keep], w[sorted_keep],
                                        case["fuzzy"] / 2000.0)
        o.label("spatial")
    else:
        fw = np.broadcast_to(w[keep][:, None, None], m.shape)
    fw = np.where(m, 0, fw)
    tot = fw.sum(axis=0)
    none = m.all(axis=0)
    x = np.where(m, 0, fw)
    use = vals[keep].astype(np.float64)
    if d["thr"]:
        x = x[:, None]
    want = (x * use).sum(axis=0) / np.where(tot > 0, tot, 1)
    wm = np.broadcast_to(none, want.shape)
    got = res.data
    if d["thr"]:
        got = got.transpose([res.coord_dims("air_temperature")[0],
                             res.coord_dims("projection_y_coordinate")[0],
                             res.coord_dims("projection_x_coordinate")[0]])
    if mask.any():
        o.close_masked(got, want, wm, "blend", rtol=1e-4, atol=1e-5)
    else:
        o.close(got, want, "blend", rtol=1e-5, atol=1e-6)
    o.equal(str(res.dtype), "float32", "dtype")
    o.equal(res.name(), cubes[0].name(), "name")
    # metadata
    o.equal(res.coord("forecast_reference_time").points.tolist(), [cyc], "reference time")
    o.equal(res.coord("blend_time").points.tolist(), [cyc], "blend time")
    o.equal(res.coord("time").points.tolist(), [validity], "time")
    o.equal(res.coord("forecast_period").points.tolist(), [validity - cyc], "forecast period")
    for n, t in (("time", np.int64), ("forecast_reference_time", np.int64),
                 ("forecast_period", np.int32), ("blend_time", np.int64)):
        o.equal(str(res.coord(n).points.dtype), str(np.dtype(t)), "type of " + n)
    if d["period"]:
        o.equal(res.coord("time").bounds.tolist(), [[validity - 3600, validity]], "bounds")
        o.equal(res.coord("forecast_period").bounds.tolist(),
                [[validity - cyc - 3600, validity - cyc]], "period bounds")
    o.check(res.coord("forecast_reference_time").bounds is None, "reference time has bounds")
    names = sorted(x.name() for x in res.coords())
    o.equal(names, sorted(x.name() for x in cubes[0].coords()) + ["blend_time"]
            if False else sorted([x.name() for x in cubes[0].coords()] + ["blend_time"]),
            "coordinates")
    att = dict(res.attributes)
    want_models = " ".join(sorted(case["names"][i] for i in keep)) if mode == "model" \
        else "uk_ens"
    o.equal(att.pop("mosg__model_configuration", None), want_models, "contributing models")
    got_rec = att.pop("mosg__model_run", None)
    if record:
        want_rec = {}
        for i in keep:
            for name, v in records[i]:
                want_rec[name] = v * (w[i] if k > 1 else 1.0)
        lines = (got_rec or "").split("\n")
        o.equal(lines, sorted(lines), "record is in order")
        have = {x.rsplit(":", 1)[0]: float(x.rsplit(":", 1)[1]) for x in lines if x}
        o.equal(sorted(have), sorted(want_rec), "recorded runs")
        o.equal(len(lines), len(want_rec), "number of records")
        for n in have:
            o.check(abs(have[n] - want_rec[n]) <= 0.00051, "recorded weight of %s is %s, "
                    "expected %s", n, have[n], want_rec[n])
        o.label("record")
    if case["attr"]:
        o.equal(att.get("title"), "Post-Processed Blended", "title")
        o.equal(att.get("institution"), "unknown", "institution")
    else:
        o.equal(att.get("title"), "unknown" if d["titles"] and k > 1 else
                "Post-Processed Forecast" + (" 0" if d["titles"] else ""), "title")
        o.equal(att.get("institution"), "Met Office", "institution")
    o.equal(att.get("source"), "IMPROVER", "source")
    o.label(mode, "masked" if mask.any() else "", "one" if len(keep) == 1 else "",
            "zero weight" if len(keep) < k else "", "thresholds" if d["thr"] else "")
    return len(keep) > 1 and vals[keep].min() != vals[keep].max()


def run_blend(case):
    from improver.blending.calculate_weights_and_blend import WeightAndBlend

    if case["mode"] == "model":
        conf = {}
        for n, wt in zip(case["names"], case["wts"]):
            conf[n] = {"forecast_period": [4, 16], "weights": wt, "units": "hours"}
        plugin = WeightAndBlend("model_id", "dict", weighting_coord="forecast_period",
                                wts_dict=conf)
    elif case["method"] == "linear":
        plugin = WeightAndBlend("forecast_reference_time", "linear", y0val=case["y0"],
                                ynval=case["yn"])
    else:
        plugin = WeightAndBlend("forecast_reference_time", "nonlinear", cval=case["cval"],
                                inverse_ordering=case["inverse"])
    out = judge(plugin, case, case["first"])
    if case["second"] is not None:
        out = judge(plugin, case, case["second"]) or out
        o.label("second use")
    return out


SUBS = {"blend": Sub(gen_blend, run_blend, 1)}
