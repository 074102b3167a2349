"""C25: categories: decision trees, their checking, day and night, the category of a period."""
import copy
import datetime
import warnings
from collections import Counter

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: decision trees (graphs of up to six nodes with one or two conditions, sums, differences, "
        "products and quotients of probabilities, deterministic nodes, nodes that may be missing) on "
        "grids and sites with masks, units and periods; the same trees with one mistake; grids, "
        "sites and times for day and night; series of categories with groups and night codes; "
        "non-trivial when at least two categories, both day and night, or a tie or group occurs")
QUICK = 3000
THOROUGH = 30000
# name, cube units, thresholds, tree units with factor from cube units (thresholds are all over 1% apart)
POOL = [
    ("probability_of_rainfall_rate_above_threshold", "m s-1", [0.03 / 3.6e6, 0.1 / 3.6e6, 1 / 3.6e6],
     [("mm h-1", [0.03, 0.1, 1]), ("m s-1", [0.03 / 3.6e6, 0.1 / 3.6e6, 1 / 3.6e6])]),
    ("probability_of_air_temperature_below_threshold", "K", [263.15, 273.15, 283.15],
     [("celsius", [-10, 0, 10]), ("K", [263.15, 273.15, 283.15])]),
    ("probability_of_lwe_thickness_of_precipitation_amount_above_threshold", "m", [0.0003, 0.003, 0.03],
     [("mm", [0.3, 3, 30]), ("m", [0.0003, 0.003, 0.03])]),
    ("probability_of_number_of_lightning_flashes_per_unit_area_in_vicinity_above_threshold", "m-2",
     [0.0], [("m-2", [0.0])]),
    ("probability_of_visibility_in_air_below_threshold", "m", [0, 1000, 5000],
     [("km", [0, 1, 5]), ("m", [0, 1000, 5000])]),
]
DET = ["texture_of_cloud", "lightning_rate"]
INV = {"<": ">=", ">=": "<", ">": "<=", "<=": ">"}
CMP = {"<": np.less, ">": np.greater, "<=": np.less_equal, ">=": np.greater_equal}
MODEL = "mosg__model_configuration"


# ---------------------------------------------------------------- trees
def gen_nodes(draw, g, n, nleaf):
    nodes = []
    for i in range(n):
        target = g.integers(0, (n - i - 1) + nleaf - 1)
        det = draw(g.integers(0, 5)) == 0
        groups = []
        for _ in range(draw(g.sampled([1, 1, 1, 2]))):
            k = 1 if det else draw(g.sampled([1, 1, 1, 2, 2, 3, 4]))
            groups.append({"terms": [[draw(g.integers(0, (len(DET) if det else len(POOL)) - 1)),
                                      draw(g.integers(0, 2)), draw(g.integers(0, 1))]
                                     for _ in range(k)],
                           "ops": [draw(g.sampled("+-+-*/")) for _ in range(k - 1)]})
        nodes.append({"det": det, "groups": groups, "cond": draw(g.sampled(["<", ">", "<=", ">="])),
                      "comb": draw(g.sampled(["AND", "OR"])) if len(groups) == 2 else "",
                      "p": [draw(g.sampled([0.25, 0.5, 0.3, 0.75, 0.1])) for _ in groups],
                      "t": draw(target), "f": draw(target),
                      "missing": draw(g.sampled([None, None, "if_true", "if_false"]))})
    return nodes


def gen_tree():
    from vp import gens as g

    @g.composite
    def case(draw):
        n, nleaf = draw(g.integers(1, 6)), draw(g.integers(2, 5))
        grid = draw(g.xy_grid(1, 4))
        spot = draw(g.integers(0, 3)) == 0
        m = (grid["nx"] if spot else grid["ny"] * grid["nx"])
        nd = len(POOL) + len(DET)
        codes = draw(g.sampled([[0, 1, 2, 3, 4, 5, 6, 7], [29, 3, 15, 1, 2, 11, 30, 4]]))
        return {"nodes": gen_nodes(draw, g, n, nleaf), "nleaf": nleaf, "grid": grid, "spot": spot,
                "codes": codes, "night": draw(g.fixed(nleaf, g.integers(0, 2))),
                "data": [draw(g.fixed(3 * m, g.integers(0, 16))) for _ in range(nd)],
                "masks": draw(g.fixed(nd, g.sampled([0, 0, 0, 1]))),
                "mask": draw(g.fixed(m, g.sampled([0, 0, 1]))),
                "absent": draw(g.sampled([0, 0, 0, 1, 2, 4, 8, 16, 32, 64, 6, 9])),
                "times": draw(g.times()), "period": draw(g.sampled([None, 3600, 10800, 10800])),
                "meta": draw(g.sampled(["first", "last"])), "title": draw(g.sampled([None, "Mine"])),
                "extra": draw(g.booleans()), "old": draw(g.integers(0, 5)) == 0,
                "model": draw(g.booleans()), "frts": draw(g.fixed(nd, g.integers(0, 3))),
                "blend": draw(g.integers(0, 2)) == 0, "order": draw(g.permutation(nd)),
                "bad": draw(g.sampled([None] * 9 + ["time", "periods", "target"])),
                "rest": draw(g.booleans())}

    return case()


def build(case, period):
    """The tree as the user writes it."""
    n = len(case["nodes"])

    def name(t, i):
        return "node%d" % (i + 1 + t) if i + 1 + t < n else "leaf%d" % (i + 1 + t - n)

    tree = {}
    if case["meta"] == "first":
        tree["meta"] = {"name": "weather_code"}
    for i, node in enumerate(case["nodes"]):
        fields, thr, con = [], [], []
        nested = any(len(x["terms"]) > 1 for x in node["groups"])
        for x in node["groups"]:
            f, t, d = [], [], []
            for j, (k, a, u) in enumerate(x["terms"]):
                if j:
                    f.append(x["ops"][j - 1])
                if node["det"]:
                    f.append(DET[k])
                    continue
                nm, _, pts, opts = POOL[k]
                units, vals = opts[u % len(opts)]
                v = [vals[a % len(vals)], units]
                if k == 2:
                    v = [v[0] / (period / 3600.0), units, 3600] if period else v
                f.append(nm)
                t.append(v)
                d.append("above" if "above" in nm else "below")
            fields.append(f if nested else f[0])
            thr.append(t if nested else (t[0] if t else None))
            con.append(d if nested else (d[0] if d else None))
        q = {"if_true": name(node["t"], i), "if_false": name(node["f"], i),
             "threshold_condition": node["cond"], "condition_combination": node["comb"],
             "diagnostic_fields": fields}
        if node["det"]:
            q.update({"deterministic": True, "thresholds": list(node["p"])})
        else:
            q.update({"probability_thresholds": list(node["p"]), "diagnostic_thresholds": thr,
                      "diagnostic_conditions": con})
        if node["missing"]:
            q["if_diagnostic_missing"] = node["missing"]
        tree["node%d" % i] = q
    nl = case["nleaf"]
    for k in range(nl):
        leaf = {"leaf": case["codes"][k]}
        if case["night"][k] == 0:
            leaf["if_night"] = "dark"
        tree["leaf%d" % k] = leaf
    tree["dark"] = {"leaf": case["codes"][7], "is_unreachable": True}
    if case["meta"] == "last":
        tree["meta"] = {"name": "weather_code"}
    return tree


def space(case):
    return [case["grid"]["nx"]] if case["spot"] else [case["grid"]["ny"], case["grid"]["nx"]]


def sun(lat, lon, when):
    """Sine of the solar elevation (NOAA low accuracy equations)."""
    day = when.timetuple().tm_yday - 1
    r = when + datetime.timedelta(seconds=when.second)
    hour = 24.0 if r.day != when.day else r.hour + r.minute / 60.0
    dec = np.radians(-23.5 * np.cos(np.radians(0.9856 * day + 9.3)))
    th = 2 * np.pi * day / 365.0
    eq = (0.000075 + 0.001868 * np.cos(th) - 0.032077 * np.sin(th) - 0.014615 * np.cos(2 * th)
          - 0.040849 * np.sin(2 * th))
    h = np.radians((hour + np.asarray(lon, float) / 15 + eq * 12 / np.pi - 12) * 15)
    p = np.radians(np.asarray(lat, float))
    return np.sin(dec) * np.sin(p) + np.cos(dec) * np.cos(p) * np.cos(h)


def latlon(cube):
    """Latitude and longitude of each point of a (y, x) or site cube."""
    if cube.coords("spot_index"):
        return cube.coord("latitude").points, cube.coord("longitude").points
    y, x = cube.coord(axis="y"), cube.coord(axis="x")
    xx, yy = np.meshgrid(x.points.astype(float), y.points.astype(float))
    if y.name() == "latitude":
        return yy, xx
    import cartopy.crs as ccrs

    p = ccrs.PlateCarree().transform_points(x.coord_system.as_cartopy_crs(), xx, yy)
    return p[..., 1], p[..., 0]


def utc(seconds):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(seconds))


def placed(case, data, name, units, lead, scal, attrs):
    from vp import cubes as c

    if case["spot"]:
        n = case["grid"]["nx"]
        return c.spot_cube(data, name, units, n, lead, scal, attrs,
                           lats=[-60 + 37 * i for i in range(n)], lons=[-170 + 97 * i for i in range(n)])
    return c.new_cube(data, name, units, lead + c.yx_coords(case["grid"]), scal, attrs)


def run_tree(case):
    from improver.categorical.decision_tree import ApplyDecisionTree
    from iris.coords import DimCoord
    from iris.cube import CubeList
    from vp import cubes as c

    shape = space(case)
    m = int(np.prod(shape))
    period = case["period"]
    tree = build(case, period)
    used = {(bool(nd["det"]), t[0]) for nd in case["nodes"] for x in nd["groups"] for t in x["terms"]}
    absent = {(k >= len(POOL), k if k < len(POOL) else k - len(POOL))
              for k in range(len(POOL) + len(DET)) if case["absent"] >> k & 1}
    time = case["times"]["frt"] + case["times"]["fp"]
    cubes, values, masks = {}, {}, {}
    old = case["old"]
    for k in range(len(POOL) + len(DET)):
        key = (k >= len(POOL), k if k < len(POOL) else k - len(POOL))
        if key in absent or (key not in used and not case["extra"]):
            continue
        t = dict(case["times"], period=None)
        t["frt"] -= 3600 * case["frts"][k]
        t["fp"] += 3600 * case["frts"][k]
        if k == 2 or (k == 5 and case["extra"]):
            t["period"] = period or case["times"]["period"]
        if case["bad"] == "time" and k == 0:
            t["frt"] += 3600
        if case["bad"] == "periods" and k == 5:
            t["period"] = 7200
        scal = c.time_coords(t)
        if case["blend"]:
            scal.append(scal[1].copy())
            scal[-1].rename("blend_time")
        attrs = dict(c.ATTRS, title="T%d" % (k if k == 4 else 0))
        attrs[MODEL] = "uk_ens" if k % 2 else "uk_det uk_ens"
        npt = 1 if k >= len(POOL) else len(POOL[k][2])
        d = (np.array(case["data"][k][:npt * m], np.float32) / 16).reshape([npt] + shape)
        mk = np.array(case["mask"], bool).reshape(shape) if case["masks"][k] else np.zeros(shape, bool)
        data = np.ma.MaskedArray(d, np.broadcast_to(mk, d.shape).copy()) if case["masks"][k] else d
        if k >= len(POOL):
            cube = placed(case, data[0], DET[key[1]], "1", [], scal, attrs)
        else:
            nm, units, pts, _ = POOL[k]
            tn = nm[15:].replace("_above_threshold", "").replace("_below_threshold", "")
            tn = tn.replace("_in_vicinity", "")
            tc = c.threshold_coord(pts, "threshold" if old else tn, units,
                                   "above" if "above" in nm else "below")
            if npt == 1:
                cube = placed(case, data[0], nm, "1", [], scal + [tc], attrs)
            else:
                cube = placed(case, data, nm, "1", [tc], scal, attrs)
        cubes[key], values[key], masks[key] = cube, d, mk
    if not cubes:
        o.reject()
    order = [(k >= len(POOL), k if k < len(POOL) else k - len(POOL)) for k in case["order"]]
    given = [cubes[k] for k in order if k in cubes]
    needed = [k for k in used if k in cubes]
    if not needed:
        o.reject("nothing to decide with")
    before = [o.snapshot(x) for x in given]
    if any(k == (False, 2) for k in used) and not period:
        pass          # thresholds without a period are taken as they are
    mine = copy.deepcopy(tree)
    plugin = ApplyDecisionTree(mine, model_id_attr=MODEL if case["model"] else None,
                               target_period=period, title=case["title"])
    arg = given if case["rest"] else [CubeList(given)]
    bounded = [x for x in given if x.coord("time").has_bounds()]
    spans = {int(np.diff(x.coord("time").bounds[0])[0]) for x in bounded}
    wrong = len({int(x.coord("time").points[0]) for x in given}) > 1 or len(spans) > 1 or (
        period and spans and spans != {period})
    if wrong:
        o.raises(ValueError, plugin, *arg)
        return True
    # nodes without their diagnostics
    lost = [i for i, nd in enumerate(case["nodes"])
            if any((bool(nd["det"]), t[0]) in absent for x in nd["groups"] for t in x["terms"])]
    if any(case["nodes"][i]["missing"] is None for i in lost):
        o.raises(IOError, plugin, *arg)
        o.label("diagnostic missing")
        return True
    if case["bad"]:
        o.reject()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            res = plugin(*arg)
    for b, x in zip(before, given):
        o.unchanged(b, x)
    # reference: walk the tree at each point
    n = len(case["nodes"])
    want, und, gone = np.full(m, -1), np.zeros(m, bool), np.zeros(m, bool)
    flat = {k: v.reshape(v.shape[0], m) for k, v in values.items()}

    def after(i, branch):
        i += 1 + case["nodes"][i][branch]
        while i < n and i in lost:
            i += 1 + case["nodes"][i]["t" if case["nodes"][i]["missing"] == "if_true" else "f"]
        return i

    for p in range(m):
        at = 0
        while at < n:
            nd = case["nodes"][at]
            if at in lost:
                at += 1 + nd["t" if nd["missing"] == "if_true" else "f"]
                continue
            outcomes = []
            for x, pth in zip(nd["groups"], nd["p"]):
                text, vals, inv = "", [], False
                for j, (k, a, _) in enumerate(x["terms"]):
                    key = (bool(nd["det"]), k)
                    vals.append(float(flat[key][a % len(flat[key]), p]))
                    inv |= bool(masks[key].ravel()[p])
                    text += (x["ops"][j - 1] if j else "") + "(v[%d])" % j
                gone_here = inv
                try:
                    v = eval(text, {"v": vals})
                except ZeroDivisionError:
                    und[p] = True
                    v = 0
                if len(vals) > 1 and abs(v - pth) < 1e-5:
                    und[p] = True
                outcomes.append((bool(CMP[nd["cond"]](np.float32(v), np.float32(pth))), gone_here))
            if any(q for _, q in outcomes):
                gone[p] = True
                if after(at, "t") == after(at, "f"):
                    und[p] = True
            yes = [q for q, _ in outcomes]
            yes = all(yes) if nd["comb"] != "OR" else any(yes)
            at += 1 + (nd["t"] if yes else nd["f"])
        leaf = at - n
        want[p] = case["codes"][leaf]
        if case["night"][leaf] == 0 and not gone[p]:
            want[p] += 1000        # depends on the sun
    template = (bounded or given[:1])[-1]
    lat, lon = latlon(template)
    when = utc(time)
    if bounded:
        when = utc(time - spans.pop() / 2)
    s = np.ravel(sun(lat, lon, when))
    sunny = want >= 1000
    und |= sunny & (np.abs(s) < 2e-4)
    want[sunny] = np.where(s > 0, want - 1000, case["codes"][7])[sunny]
    got, gm = np.ma.getdata(res.data).ravel(), np.ma.getmaskarray(res.data).ravel()
    o.equal(list(res.shape), shape, "shape")
    ok = ~und
    o.equal(gm[ok].tolist(), gone[ok].tolist(), "mask")
    ok &= ~gone
    o.equal(got[ok].tolist(), want[ok].tolist(), "categories")
    o.equal((res.name(), str(res.units), res.dtype), ("weather_code", "1", np.dtype("i4")), "result")
    # metadata
    frts = [int(cubes[k].coord("forecast_reference_time").points[0]) for k in needed]
    o.equal(int(res.coord("forecast_reference_time").points[0]), max(frts), "reference time")
    if case["blend"]:
        o.equal(int(res.coord("blend_time").points[0]), max(frts), "blend time")
    o.equal(int(res.coord("forecast_period").points[0]), time - max(frts), "forecast period")
    o.same_coord(res.coord("time"), template.coord("time"))
    leaves = sorted([(case["codes"][k], "leaf%d" % k) for k in range(case["nleaf"])]
                    + [(case["codes"][7], "dark")])
    a = dict(res.attributes)
    o.equal(list(a.pop("weather_code")), [x for x, _ in leaves], "codes")
    o.equal(a.pop("weather_code_meaning"), " ".join(x for _, x in leaves), "meanings")
    titles = {cubes[k].attributes["title"] for k in needed}
    want_a = dict(c.ATTRS, title=case["title"] or (titles.pop() if len(titles) == 1 else "unknown"))
    if case["model"]:
        want_a[MODEL] = " ".join(sorted({x for k in needed
                                         for x in cubes[k].attributes[MODEL].split()}))
    o.equal(a, want_a, "attributes")
    o.check(not [x for x in res.coords() if x.var_name == "threshold"], "threshold left")
    if case["spot"]:
        o.equal(list(res.coord("wmo_id").points), list(template.coord("wmo_id").points), "sites")
    else:
        for ax in "yx":
            o.same_coord(res.coord(axis=ax), template.coord(axis=ax))
    o.label(lost and "bypassed", sunny.any() and "sun", gone.any() and "masked",
            any(x["ops"] for nd in case["nodes"] for x in nd["groups"]) and "expression")
    return len(set(want[~gone & ~und])) > 1


# ---------------------------------------------------------------- checking of trees
MISTAKES = ["none", "none", "nometa", "metakey", "metaextra", "dupleaf", "leafkey", "unreachable",
            "reachable", "floatleaf", "nightnone", "nightnode", "nightnight", "group", "nodekey",
            "lostnode", "missingkey", "comb1", "comb2", "cond", "target", "bare", "above", "nesting",
            "numeric", "count"]


def gen_check():
    from vp import gens as g

    @g.composite
    def case(draw):
        n, nleaf = draw(g.integers(1, 5)), draw(g.integers(2, 5))
        return {"nodes": gen_nodes(draw, g, n, nleaf), "nleaf": nleaf,
                "codes": [0, 1, 2, 3, 4, 5, 6, 7], "night": draw(g.fixed(nleaf, g.integers(0, 2))),
                "meta": draw(g.sampled(["first", "last"])), "period": draw(g.sampled([None, 10800])),
                "mistake": draw(g.sampled(MISTAKES)), "at": draw(g.integers(0, 9)),
                "groups": draw(g.booleans())}

    return case()


def run_check(case):
    from improver.categorical.utilities import check_tree

    for nd in case["nodes"]:
        for x in nd["groups"]:
            for t in x["terms"]:
                t[2] = case["at"] % 2
    tree = build(case, case["period"])
    n, nl = len(case["nodes"]), case["nleaf"]
    # make every node and leaf reachable, homogeneous nesting only
    for i in range(n):
        tree["node%d" % i]["if_true"] = "node%d" % (i + 1) if i + 1 < n else "leaf0"
    extra = [k for k in range(1, nl)]
    if n < len(extra):
        for k in extra[n:]:
            del tree["leaf%d" % k]
        extra = extra[:n]
    for i in range(n):
        tree["node%d" % i]["if_false"] = "leaf%d" % extra[i % len(extra)]
    for nd in case["nodes"]:
        lens = {len(x["terms"]) > 1 for x in nd["groups"]}
        if len(lens) > 1:
            o.reject("mixed nesting")
    if not any("if_night" in v for v in tree.values()):
        del tree["dark"]
    else:
        del tree["dark"]["is_unreachable"]
    if case["groups"]:
        tree["leaf0"]["group"] = tree["leaf1"]["group"] = "wet"
    mistake = case["mistake"]
    i = case["at"] % n
    node = "node%d" % i
    q = tree[node]
    det = bool(q.get("deterministic"))
    want = []
    if mistake == "nometa":
        del tree["meta"]
        want = ["meta"]
    elif mistake == "metakey":
        tree["meta"] = {}
        want = ["eta", "name"]
    elif mistake == "metaextra":
        tree["meta"]["colour"] = "red"
        want = ["eta", "colour"]
    elif mistake == "dupleaf":
        tree["leaf1"]["leaf"] = tree["leaf0"]["leaf"]
        want = ["more than once", str(tree["leaf0"]["leaf"])]
    elif mistake == "leafkey":
        tree["leaf1"]["colour"] = 1
        want = ["leaf1", "colour"]
    elif mistake == "unreachable":
        tree["alone"] = {"leaf": 99}
        want = ["nreachable", "alone"]
    elif mistake == "reachable":
        tree["leaf1"]["is_unreachable"] = True
        want = ["leaf1", "is_unreachable"]
    elif mistake == "floatleaf":
        tree["leaf1"]["leaf"] = 1.5
        want = ["leaf1", "1.5"]
    elif mistake == "nightnone":
        tree["leaf1"]["if_night"] = "nowhere"
        want = ["leaf1", "nowhere"]
    elif mistake == "nightnode":
        tree["leaf1"]["if_night"] = node
        want = ["leaf1", node]
    elif mistake == "nightnight":
        tree["leaf0"]["if_night"] = "leaf1"
        tree["leaf1"]["if_night"] = "dark"
        tree.setdefault("dark", {"leaf": 7})
        want = ["leaf0", "leaf1", "night"]
    elif mistake == "group":
        tree["leaf1"]["group"] = "lonely"
        want = ["leaf1", "lonely"]
    elif mistake == "nodekey":
        q["colour"] = 1
        want = [node, "colour"]
    elif mistake == "lostnode":
        tree["nodeX"] = copy.deepcopy(q)
        want = ["nreachable", "nodeX"]
    elif mistake == "missingkey":
        q["if_diagnostic_missing"] = "maybe"
        want = [node, "maybe"]
    elif mistake == "comb1":
        if len(q["diagnostic_fields"]) != 2:
            o.reject()
        q["condition_combination"] = "XOR"
        want = [node, "XOR"]
    elif mistake == "comb2":
        if len(q["diagnostic_fields"]) == 2:
            o.reject()
        q["condition_combination"] = "AND"
        want = [node, "AND"]
    elif mistake == "cond":
        q["threshold_condition"] = "=="
        want = [node, "=="]
    elif mistake == "target":
        tree["node%d" % (n - 1)]["if_true"] = "nowhere"
        want = ["node%d" % (n - 1), "nowhere"]
    elif mistake == "bare":
        tree["node%d" % (n - 1)]["if_true"] = 3
        want = ["node%d" % (n - 1), "3"]
    elif mistake == "above":
        if det:
            o.reject()
        if isinstance(q["diagnostic_conditions"][-1], list):
            q["diagnostic_conditions"][-1][-1] = "beyond"
        else:
            q["diagnostic_conditions"][-1] = "beyond"
        want = [node, "beyond"]
    elif mistake == "nesting":
        if det:
            o.reject()
        q["diagnostic_conditions"] = q["diagnostic_conditions"] + ["above"]
        want = [node, "nesting"]
    elif mistake == "numeric":
        k = "thresholds" if det else "probability_thresholds"
        q[k][-1] = "0.5"
        want = [node, "numeric"]
    elif mistake == "count":
        k = "thresholds" if det else "probability_thresholds"
        q[k] = q[k] + [0.5]
        want = [node, "different number"]
    text = check_tree(copy.deepcopy(tree), case["period"])
    if not want:
        lines = text.split("\n")
        o.equal(lines[:2], ["Decision tree OK", "Required inputs are:"], "verdict")
        got = sorted(x[2:] for x in lines[2:] if x.strip())
        req, dets = {}, []
        for nd in case["nodes"]:
            for x in nd["groups"]:
                for k, a, u in x["terms"]:
                    if nd["det"]:
                        dets.append("%s (deterministic)" % DET[k])
                        continue
                    un, vals = POOL[k][3][u % len(POOL[k][3])]
                    req.setdefault((POOL[k][0], un), set()).add(float(vals[a % len(vals)]))
        o.equal(sorted(x for x in got if "determin" in x), sorted(dets), "deterministic inputs")
        rest = {}
        for x in got:
            if "determin" not in x:
                name, vals = x.split("): ")
                rest[tuple(name.split(" (", 1))] = sorted(float(v) for v in vals.split(", "))
        o.equal(sorted(rest), sorted(req), "inputs")
        for k, v in req.items():
            o.close(rest[k], sorted(v), "thresholds of " + k[0])
    else:
        o.check("Decision tree OK" not in text, "a wrong tree (%s) is found good", mistake)
        o.check(any(all(w in line for w in want) for line in text.split("\n")),
                "mistake %s is not named: %s", mistake, text)
    if mistake == "none" and len(case["nodes"]) == 1:
        o.raises(ValueError, check_tree, [tree])
    o.label(mistake)
    return True


# ---------------------------------------------------------------- day and night
def gen_daynight():
    from vp import gens as g

    @g.composite
    def case(draw):
        kind = draw(g.sampled(["grid", "grid", "grid", "spot"]))
        grid = draw(g.xy_grid(1, 5))
        if grid["kind"] == "latlon" and draw(g.booleans()):
            grid = dict(grid, dy=10, y0=-45, dx=40, x0=draw(g.sampled([-180, 0])), ny=9, nx=8)
        return {"spot": kind == "spot", "grid": grid, "day": draw(g.integers(0, 365)),
                "sec": draw(g.integers(0, 86399)), "round": draw(g.integers(0, 3)) > 0,
                "nt": draw(g.sampled([1, 1, 2, 3])), "step": draw(g.sampled([3600, 10800, 43200])),
                "bounds": draw(g.sampled([None, 3600, 21600, 86400])),
                "lead": draw(g.sampled([None, None, "first", "second"])),
                "year": draw(g.sampled([2017, 2020])), "reuse": draw(g.booleans()),
                "lats": draw(g.fixed(5, g.integers(-89, 89))),
                "lons": draw(g.fixed(5, g.integers(-180, 359)))}

    return case()


def run_daynight(case):
    from improver.utilities.solar import DayNightMask
    from iris.coords import DimCoord
    from vp import cubes as c

    start = int((datetime.datetime(case["year"], 1, 1) - datetime.datetime(1970, 1, 1)).total_seconds())
    sec = case["sec"] // 900 * 900 if case["round"] else case["sec"]
    pts = start + 86400 * case["day"] + sec + case["step"] * np.arange(case["nt"])
    pts = pts.astype(np.int64)
    b = None
    if case["bounds"]:
        b = np.stack([pts - case["bounds"], pts], 1)
    tc = DimCoord(pts, standard_name="time", units=c.TIME_UNIT, bounds=b)
    spot, grid = case["spot"], case["grid"]
    n = grid["nx"]
    shape = [n] if spot else [grid["ny"], n]
    lead, scal = [], []
    dims = []
    if case["nt"] > 1:
        lead.append(tc)
        dims.append("time")
    else:
        scal = [DimCoord(pts[0], standard_name="time", units=c.TIME_UNIT,
                         bounds=None if b is None else b[0])]
    if case["lead"]:
        lead.insert(0 if case["lead"] == "first" else len(lead), c.realization_coord([0, 1]))
    data = np.zeros([len(x.points) for x in lead] + shape, np.float32)
    if spot:
        lats, lons = case["lats"][:n], case["lons"][:n]
        if n > 5:
            o.reject()
        cube = c.spot_cube(data, "precipitation_rate", "m s-1", n, lead, scal, lats=lats, lons=lons)
    else:
        cube = c.new_cube(data, "precipitation_rate", "m s-1", lead + c.yx_coords(grid), scal)
    before = o.snapshot(cube)
    plugin = DayNightMask()
    if case["reuse"]:
        if spot:
            plugin(c.new_cube(np.zeros((2, 2), np.float32), "a", "1", c.yx_coords(
                {"kind": "latlon", "ny": 2, "nx": 2, "y0": 0, "x0": 0, "dy": 1, "dx": 1}),
                c.time_coords({"frt": 0, "fp": 0})))
        else:
            plugin(c.spot_cube(np.zeros(2, np.float32), "a", "1", 2, [],
                               c.time_coords({"frt": 0, "fp": 0})))
    res = plugin(cube)
    o.unchanged(before, cube)
    lat, lon = latlon(cube)
    if not spot:
        o.check(np.abs(lat).max() <= 90, "harness")
    want, und = [], []
    for k, t in enumerate(pts):
        s = sun(lat, lon, utc(t - (case["bounds"] or 0) / 2))
        want.append((s > 0).astype(int))
        und.append(np.abs(s) < 2e-4)
    want, und = np.array(want), np.array(und)
    if case["nt"] == 1:
        want, und = want[0], und[0]
    o.equal(res.shape, want.shape, "shape")
    got = res.data
    o.check(not np.ma.is_masked(got), "masked")
    o.equal(np.where(und, 0, got).tolist(), np.where(und, 0, want).tolist(), "day (1) and night (0)")
    o.equal((res.name(), str(res.units), res.dtype), ("day_night_mask", "1", np.dtype("i4")), "result")
    o.equal(dict(res.attributes), dict(c.ATTRS, title="Day-Night mask"), "attributes")
    for x in cube.coords(dim_coords=True):
        if x.name() != "realization":
            o.same_coord(res.coord(x.name()), x)
    o.check(not res.coords("realization", dim_coords=True), "realization")
    o.label("spot" if spot else grid["kind"], case["bounds"] and "bounds", "times" if case["nt"] > 1 else None)
    return 0 < want.sum() < want.size


# ---------------------------------------------------------------- category of a period
LEAVES = [("Night", 0, None, None), ("Sunny", 1, "Night", None), ("PartNight", 2, None, None),
          ("Part", 3, "PartNight", None), ("Mist", 5, None, "vis"), ("Fog", 6, None, "vis"),
          ("Cloud", 7, None, None), ("ShowerN", 9, None, "wet"), ("Shower", 10, "ShowerN", "wet"),
          ("Drizzle", 11, None, "wet"), ("Rain", 12, None, "wet"), ("Sleet", 18, None, "cold"),
          ("Snow", 24, None, "cold"), ("Hail", 21, None, "ice"), ("HailN", 20, None, "ice")]


def gen_modal():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(1, 3))
        spot = draw(g.integers(0, 3)) == 0
        m = grid["nx"] if spot else grid["ny"] * grid["nx"]
        nt = draw(g.integers(1, 12))
        few = draw(g.lists(g.integers(0, len(LEAVES) - 1), min_size=2, max_size=12))
        return {"grid": grid, "spot": spot, "nt": nt,
                "data": draw(g.fixed(nt * m, g.sampled(few))), "order": draw(g.permutation(nt)),
                "period": draw(g.sampled([3600, 3600, 10800])), "uneven": draw(g.integers(0, 12)) == 0,
                "frts": draw(g.sampled(["same", "older", "fp"])), "blend": draw(g.booleans()),
                "model": draw(g.booleans()), "models": draw(g.fixed(nt, g.sampled(
                    ["uk_ens", "uk_det uk_ens", "nc_det"]))),
                "cells": draw(g.integers(0, 3)) == 0, "dtype": draw(g.sampled(["i4", "i4", "i8"])),
                "shuffle": draw(g.permutation(len(LEAVES))), "lead": draw(g.integers(0, 4)) == 0}

    return case()


def run_modal(case):
    from improver.categorical.modal_code import ModalCategory
    from iris.coords import CellMethod
    from iris.cube import CubeList
    from vp import cubes as c

    tree = {"meta": {"name": "weather_code"}, "first": {"if_true": "Sunny", "if_false": "Rain"}}
    for k in case["shuffle"]:
        nm, code, night, group = LEAVES[k]
        tree[nm] = {"leaf": code}
        if night:
            tree[nm]["if_night"] = night
        if group:
            tree[nm]["group"] = group
    shape, nt, P = space(case), case["nt"], case["period"]
    codes = np.array([LEAVES[k][1] for k in case["data"]]).reshape([nt] + shape)
    T = 1510286400
    cubes = []
    for i in range(nt):
        frt = T - 7200 if case["frts"] == "same" else T - 7200 - (nt - 1 - i) * P
        if case["frts"] == "fp":
            frt = T - 7200 + i * P
        time = T + i * P
        t = {"frt": frt, "fp": time - frt, "period": P if not (case["uneven"] and i == 0) else P + 600}
        scal = c.time_coords(t)
        if case["blend"]:
            scal.append(scal[1].copy())
            scal[-1].rename("blend_time")
        a = dict(c.ATTRS, weather_code=np.arange(3), weather_code_meaning="a b c")
        a[MODEL] = case["models"][i]
        d = codes[i].astype(case["dtype"])
        lead = []
        if case["lead"]:
            d, lead = np.stack([d, d[..., ::-1]]), [c.realization_coord([0, 1])]
        cube = placed(case, d, "weather_code", "1", lead, scal, a)
        if case["cells"]:
            cube.cell_methods = (CellMethod("point", "height"),)
        cubes.append(cube)
    given = CubeList([cubes[i] for i in case["order"]])
    plugin = ModalCategory(tree, model_id_attr=MODEL if case["model"] else None)
    if case["uneven"] and nt > 1:
        o.raises(ValueError, plugin, given)
        return True
    if case["uneven"]:
        P += 600
    night = {x[1]: x[2] for x in LEAVES}
    day = {dict((y[0], y[1]) for y in LEAVES)[x[2]]: x[1] for x in LEAVES if x[2]}
    del night
    groups = {}
    for nm, code, _, group in LEAVES:
        if group:
            groups.setdefault(group, []).append(code)

    def mode(v):
        n = Counter(v)
        top = max(n.values())
        return max(k for k in n if n[k] == top), top

    ties = grouped = 0

    def point(v):
        nonlocal ties, grouped
        v = [day.get(x, x) for x in v]
        code, top = mode(v)
        ties += sorted(Counter(v).values())[-2:].count(top) > 1
        if nt > 1 and top * 10 < 3 * len(v):
            grouped += 1
            new = list(v)
            for members in groups.values():
                here = [x for x in v if x in members]
                if here:
                    new = [min(here) if x in members else x for x in new]
            code, _ = mode(new)
        return code

    flat = codes.reshape(nt, -1)
    want = np.array([point(list(map(int, flat[:, p]))) for p in range(flat.shape[1])]).reshape(shape)
    if case["lead"]:
        want = np.stack([want, want[..., ::-1]])
    models = sorted({m for i in range(nt) for m in case["models"][i].split()})
    res = plugin(given)
    o.equal(list(res.shape), list(want.shape), "shape")
    o.equal(np.ma.filled(res.data, -99).tolist(), want.tolist(), "categories")
    o.check(res.dtype.kind == "i", "type")
    o.equal((res.name(), str(res.units)), ("weather_code", "1"), "name and units")
    end = T + (nt - 1) * P if not case["uneven"] else T
    first = (T - P)
    x = res.coord("time")
    o.equal((int(x.points[0]), x.bounds.tolist()), (end, [[first, end]]), "time")
    frts = [int(y.coord("forecast_reference_time").points[0]) for y in cubes]
    x = res.coord("forecast_reference_time")
    o.equal((x.points.tolist(), x.has_bounds()), ([max(frts)], False), "reference time")
    if case["blend"]:
        x = res.coord("blend_time")
        o.equal((x.points.tolist(), x.has_bounds()), ([max(frts)], False), "blend time")
    x = res.coord("forecast_period")
    o.equal((x.points.tolist(), x.bounds.tolist()), ([end - max(frts)], [[first - max(frts), end - max(frts)]]),
            "forecast period")
    want_cells = ([("point", ("height",), ())] if case["cells"] else []) + [
        ("mode", ("time",), ("%d hour" % (P // 3600),))]
    o.equal([(m.method, m.coord_names, m.intervals) for m in res.cell_methods], want_cells, "cell methods")
    if case["model"]:
        o.equal(res.attributes[MODEL], " ".join(models), "models")
    o.equal({k: v for k, v in res.attributes.items() if k in c.ATTRS}, c.ATTRS, "attributes")
    o.equal(res.attributes["weather_code_meaning"], "a b c", "meanings")
    o.label(ties and "tie", grouped and "grouped", nt == 1 and "one time")
    return bool(ties or grouped)


SUBS = {"tree": Sub(gen_tree, run_tree, 4), "check": Sub(gen_check, run_check, 2),
        "daynight": Sub(gen_daynight, run_daynight, 2), "modal": Sub(gen_modal, run_modal, 2)}
