"""C41: calibration with tree models gives the mean over members of the models' exceedance probabilities."""
import os
import shutil
import sys
import tempfile
import types
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: forecasts with and without members on grids and sites, 1-4 features of the same or "
        "fewer dimensions whose values often lie on the splits of the trees, 1-3 lead times and 1-4 "
        "model thresholds with 1-2 trees each, output thresholds equal to or among those of the models, "
        "in other units, binned or not, either library; non-trivial when the probabilities differ "
        "from place to place")
QUICK = 1600
THOROUGH = 40000


# ------------------------------------------------------------ a stand-in for the libraries of trees
class Trees:
    """The part of LightGBM that is used: models are read from its text format."""

    def __init__(self, model_file=None, **kw):
        self.params = {}
        self.path = model_file
        self.trees = []
        tree = None
        with open(model_file) as f:
            for line in f:
                key, _, value = line.rstrip("\n").partition("=")
                if key == "max_feature_idx":
                    self.features = int(value) + 1
                elif key == "Tree":
                    tree = {}
                    self.trees.append(tree)
                elif tree is not None and key in ("split_feature", "threshold", "left_child", "right_child",
                                                  "leaf_value"):
                    tree[key] = [float(x) for x in value.split()]

    def reset_parameter(self, params):
        self.params.update(params)
        return self

    def num_feature(self):
        return self.features

    def predict(self, data):
        data = np.asarray(data, np.float64)
        if data.ndim != 2 or data.shape[1] != self.features:
            raise ValueError("features of the data: %s" % (data.shape,))
        return np.array([sum(walk(t, row) for t in self.trees) for row in data])


def walk(tree, row):
    if not tree.get("split_feature"):
        return tree["leaf_value"][0]
    i = 0
    while i >= 0:
        side = "left_child" if row[int(tree["split_feature"][i])] <= tree["threshold"][i] else "right_child"
        i = int(tree[side][i])
    return tree["leaf_value"][-i - 1]


class Matrix:
    def __init__(self, data):
        self.data = np.asarray(data)


class Compiled(Trees):
    """The part of treelite_runtime that is used."""

    def __init__(self, libpath, verbose=True, nthread=None):
        if not libpath.endswith(".so"):
            raise ValueError("not a library: %s" % libpath)
        Trees.__init__(self, libpath[:-3])
        self.num_feature = self.features

    def predict(self, data):
        if not isinstance(data, Matrix):
            raise TypeError("DMatrix expected")
        return Trees.predict(self, data.data)


def libraries(treelite):
    mods = {"lightgbm": types.ModuleType("lightgbm")}
    mods["lightgbm"].Booster = Trees
    if treelite:
        mods["treelite_runtime"] = types.ModuleType("treelite_runtime")
        mods["treelite_runtime"].DMatrix = Matrix
        mods["treelite_runtime"].Predictor = Compiled
    return mods


def write(path, trees, features):
    with open(path, "w") as f:
        f.write("tree\nversion=v3\nnum_class=1\nmax_feature_idx=%d\nobjective=regression\n\n" % (features - 1))
        for i, t in enumerate(trees):
            f.write("Tree=%d\nnum_leaves=%d\nnum_cat=0\n" % (i, len(t["leaf"])))
            f.write("split_feature=%s\n" % " ".join("%d" % x for x in t["feature"]))
            f.write("split_gain=%s\n" % " ".join("1" for x in t["feature"]))
            f.write("threshold=%s\n" % " ".join("%r" % x for x in t["split"]))
            f.write("decision_type=%s\n" % " ".join("2" for x in t["feature"]))
            f.write("left_child=%s\n" % " ".join("%d" % x for x in t["left"]))
            f.write("right_child=%s\n" % " ".join("%d" % x for x in t["right"]))
            f.write("leaf_value=%s\n\n" % " ".join("%r" % x for x in t["leaf"]))
        f.write("end of trees\n\nfeature_importances:\n")


# ------------------------------------------------------------ cases
NAMES = ["air_temperature", "cape", "wind_speed", "humidity"]


def gen():
    from vp import gens as g

    @g.composite
    def tree(draw, nf):
        k = draw(g.sampled([0, 1, 1, 2, 3]))
        leaf = g.integers(-3, 12).map(lambda x: x / 10)
        out = {"feature": [draw(g.integers(0, nf - 1)) for _ in range(k)],
               "split": [draw(g.sampled([0.5, 1.0, 1.0, 2.0, 2.5, 1e-35])) for _ in range(k)],
               "leaf": [draw(leaf) for _ in range(k + 1)]}
        # a chain of nodes, each of which ends on one side in a leaf
        left, right = [], []
        for i in range(k):
            nxt = i + 1 if i + 1 < k else -k - 1
            a, b = -i - 1, nxt
            if draw(g.booleans()):
                a, b = b, a
            left.append(a)
            right.append(b)
        return dict(out, left=left, right=right)

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization", "realization", "realization"), pos=False, max_n=4))
        nf = draw(g.integers(1, 4))
        size = g.size(lay["inner"])
        leads = draw(g.lists(g.sampled([6, 12, 24, 48]), min_size=1, max_size=3, unique=True))
        models = draw(g.lists(g.sampled([0, 0.0001, 0.001, 0.002, 0.005]), min_size=1, max_size=4, unique=True))
        outputs = draw(g.one_of(g.just(None), g.lists(g.sampled(
            [0, 0.0001, 0.0005, 0.001, 0.003, 0.005, 0.01]), min_size=1, max_size=5, unique=True)))
        return {"lay": lay, "nf": nf, "leads": leads, "models": models, "outputs": sorted(outputs or models),
                "trees": [[[draw(tree(nf)) for _ in range(draw(g.integers(1, 2)))] for _ in models] for _ in leads],
                "x": [draw(g.fixed(size, g.sampled([0.0, 0.5, 1.0, 1.0, 2.0, 2.5, 3.0]))) for _ in range(nf)],
                "flat": [draw(g.integers(0, 2)) == 0 for _ in range(nf + 1)], "order": draw(g.permutation(4)),
                "names": draw(g.permutation(4)), "hours": draw(g.sampled([1, 6, 9, 10, 12, 18, 20, 24, 36.5, 47, 60])),
                "units": draw(g.sampled([None, None, "m", "mm"])), "bin": draw(g.booleans()),
                "threads": draw(g.integers(1, 4)), "lib": draw(g.sampled(["lightgbm", "lightgbm", "treelite", "mixed"])),
                "calls": draw(g.integers(1, 2)),
                "bad": draw(g.sampled([None] * 12 + ["number", "grid", "members", "path", "thresholds", "name"]))}

    return case()


def decreasing(p):
    """Average of the smallest so far and of the largest still to come."""
    n = len(p)
    return [0.5 * (min(p[:i + 1]) + max(p[i:])) for i in range(n)]


def interpolate(x, xs, ps):
    if x <= xs[0]:
        return ps[0]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            return ps[i - 1] + (ps[i] - ps[i - 1]) * (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return ps[-1]


def run(case):
    from improver.calibration import rainforest_calibration as rf
    from iris.cube import CubeList
    from vp import cubes as c

    lay, nf, bad = case["lay"], case["nf"], case["bad"]
    k = lay["k"]
    t = dict(lay["times"], fp=int(case["hours"] * 3600))
    full = lay["inner"]
    space = full[1:] if k else full
    flat_lay = dict(lay, k=0, lead="none", inner=space, dims=[d for d in lay["dims"] if d != "realization"], times=t)
    lay = dict(lay, times=t)
    fields, cubes = [], []
    for i in range(nf + 1):
        # the last is the forecast itself
        x = np.array(case["x"][i], np.float32).reshape(full) if i < nf else np.arange(
            g_size(full), dtype=np.float32).reshape(full) / 1000
        flat = case["flat"][i] and k and (i < nf or not all(case["flat"][:nf]))
        name = NAMES[case["names"][i]] if i < nf else "lwe_thickness_of_precipitation_amount"
        units = "1" if i < nf else "m"
        cube = c.layout_cube(flat_lay if flat else lay, np.array(x[0] if flat else x), name, units)
        fields.append(np.broadcast_to(x[:1] if flat else x, full))
        cubes.append(cube)
    forecast, features = cubes[-1], [cubes[i] for i in case["order"] if i < nf]
    # features are ordered by their names
    ranked = sorted(range(nf), key=lambda i: NAMES[case["names"][i]])
    rows = np.stack([np.asarray(fields[i], float).reshape(-1) for i in ranked], axis=1)
    if bad == "number":
        features = features[1:] if nf > 1 and case["bin"] else features + [features[0].copy()]
        if len(features) == nf + 1:
            features[-1].rename("another")
    elif bad == "grid":
        crd = features[0].coord("spot_index" if lay["spot"] else features[0].coord(axis="x").name())
        if crd.has_bounds():
            crd.bounds = None
        crd.points = crd.points + 1
    elif bad == "members":
        if not k or case["flat"][features_index(case)] or (case["flat"][nf] and sum(case["flat"][:nf]) >= nf - 1):
            o.reject("no such feature")
        crd = features[0].coord("realization")
        crd.points = crd.points + 7
    elif bad == "name":
        if nf < 2:
            o.reject("one feature")
        features[1].rename(features[0].name())
    folder = tempfile.mkdtemp(prefix="vp-trees-")
    mods = libraries(case["lib"] != "lightgbm")
    saved = {n: sys.modules.get(n) for n in ("lightgbm", "treelite_runtime")}
    try:
        for n in saved:
            if n in mods:
                sys.modules[n] = mods[n]
            else:
                sys.modules.pop(n, None)
        config = {}
        for i, lead in enumerate(case["leads"]):
            part = config["%d" % lead] = {}
            for j, thr in enumerate(case["models"]):
                path = os.path.join(folder, "m%d_%d.txt" % (i, j))
                write(path, case["trees"][i][j], nf)
                part["%.6f" % thr] = {"lightgbm_model": path}
                if case["lib"] == "treelite" or (case["lib"] == "mixed" and (i or j)):
                    part["%.6f" % thr]["treelite_model"] = path + ".so"
        if bad == "path":
            first = config["%d" % case["leads"][-1]]["%.6f" % case["models"][-1]]
            del first["lightgbm_model"]
            first.pop("treelite_model", None)
            o.raises(ValueError, rf.ApplyRainForestsCalibration, config, threads=1, bin_data=case["bin"])
            return True
        if bad == "thresholds":
            if len(case["leads"]) < 2:
                o.reject("one lead time")
            part = config["%d" % case["leads"][0]]
            n = "%.6f" % case["models"][0]
            part["0.123400"] = part.pop(n) if case["flat"][0] else part[n]
            o.raises(ValueError, rf.ApplyRainForestsCalibration, config, threads=1, bin_data=case["bin"])
            return True
        scale = 1000 if case["units"] == "mm" else 1
        asked = [x * scale for x in case["outputs"]]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            plugin = rf.ApplyRainForestsCalibration(config, threads=case["threads"], bin_data=case["bin"])
            want_cls = rf.ApplyRainForestsCalibrationTreelite if case["lib"] == "treelite" else \
                rf.ApplyRainForestsCalibrationLightGBM
            o.check(type(plugin) is want_cls, "library used: %s", type(plugin))
            if bad in ("number", "grid", "members"):
                o.raises(ValueError, plugin, forecast, CubeList(features), asked, case["units"])
                return True
            if bad == "name":
                o.raises(Exception, plugin, forecast, CubeList(features), asked, case["units"])
                return True
            before = [o.snapshot(x) for x in features + [forecast]]
            for _ in range(case["calls"]):
                res = plugin(forecast, CubeList(features), asked, threshold_units=case["units"])
            for x, y in zip(before, features + [forecast]):
                o.unchanged(x, y)
    finally:
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        assert os.path.basename(folder).startswith("vp-trees-")
        shutil.rmtree(folder)
    # what the models say
    gaps = sorted((abs(lead - case["hours"]), i) for i, lead in enumerate(case["leads"]))
    near = [gaps[0][1]] + [i for d, i in gaps[1:] if abs(d - gaps[0][0]) < 1e-6]
    rank = sorted(range(len(case["models"])), key=lambda j: case["models"][j])
    xs = [case["models"][j] for j in rank]
    options = []
    for i in near:
        probs = []
        for row in rows:
            p = [min(max(sum(walk({"split_feature": tr["feature"], "threshold": tr["split"], "left_child": tr["left"],
                                   "right_child": tr["right"], "leaf_value": tr["leaf"]}, row)
                              for tr in case["trees"][i][j]), 0), 1) for j in rank]
            p = decreasing(p)
            if case["outputs"] != xs:
                q = [interpolate(x, [0] + xs, [1] + p) for x in case["outputs"]]
                if xs[0] == 0:
                    # (the model at the lower bound itself is replaced by certainty there)
                    q = [1 if x == 0 else interpolate(x, xs, p) for x in case["outputs"]]
                q = decreasing(q)
            else:
                q = list(p)
            if case["outputs"][0] == 0:
                q[0] = 1
            probs.append(q)
        probs = np.array(probs).T.reshape([len(case["outputs"])] + full)
        options.append(probs.mean(axis=1) if k else probs)
    lead_crd = "lwe_thickness_of_precipitation_amount"
    got = c.aligned(res, flat_lay, lead_crd)
    o.check(any(np.allclose(got, w, atol=2e-5, rtol=0) for w in options),
            "probabilities %s, expected %s (features %s)", o.show(got.tolist()), o.show(options[0].tolist()),
            o.show(rows.tolist()))
    o.check(bool(((got >= 0) & (got <= 1)).all()), "probabilities outside 0 and 1")
    o.check(bool((np.diff(got, axis=0) <= 1e-6).all()), "probabilities increase with the threshold")
    o.equal(str(got.dtype), "float32", "type")
    o.equal(res.name(), "probability_of_lwe_thickness_of_precipitation_amount_above_threshold", "name")
    o.equal(str(res.units), "1", "units")
    crd = res.coord(var_name="threshold")
    o.equal(crd.name(), lead_crd, "threshold coordinate")
    o.equal((str(crd.units), crd.attributes.get("spp__relative_to_threshold")), ("m", "greater_than_or_equal_to"),
            "thresholds")
    o.close(crd.points, case["outputs"], "thresholds", rtol=1e-5, atol=1e-9)
    o.equal(res.coord_dims(crd), (0,), "position of the thresholds")
    o.check(not res.coords("realization"), "members left")
    for n in ("time", "forecast_reference_time", "forecast_period"):
        o.same_coord(res.coord(n), forecast.coord(n))
    for x in (["altitude", "latitude", "wmo_id"] if lay["spot"] else [forecast.coord(axis=a).name() for a in "yx"]):
        o.same_coord(res.coord(x), forecast.coord(x))
    for n in ("title", "source", "institution"):
        o.equal(res.attributes.get(n), forecast.attributes.get(n) if n != "title" else res.attributes.get(n), n)
    o.label(case["lib"], "binned" if case["bin"] else "not binned", "%d models" % len(near))
    return bool(len(np.unique(got)) > 1)


def features_index(case):
    """Which of the fields is the first of the features that are given."""
    return next(i for i in case["order"] if i < case["nf"])


def g_size(shape):
    n = 1
    for x in shape:
        n *= x
    return n


SUBS = {"trees": Sub(gen, run)}
