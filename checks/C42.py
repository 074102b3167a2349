"""C42: values are read from tables and curves at the right place."""
import json
import sys
import types
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: tables of 1-5 rows and columns given in any order with whole or decimal labels, cubes of "
        "values on, between and beyond the labels, missing values, layouts in different orders; sets of "
        "curves with plateaus and steps, read at points on, between and beyond theirs, in order or not; "
        "non-trivial when the values read differ")
QUICK = 2400
THOROUGH = 60000


class DataFrame:
    """The part of pandas that is used."""

    def __init__(self, values, index, columns):
        self.values, self.index, self.columns = values, np.asarray(index), np.asarray(columns)

    @classmethod
    def from_dict(cls, data):
        columns = list(data)
        index = []
        for x in data.values():
            index += [k for k in x if k not in index]
        values = [[data[x].get(i, np.nan) for x in columns] for i in index]
        return cls(np.array(values).reshape(len(index), len(columns)), index, columns)

    def reindex(self, labels, axis):
        have = list(self.columns if axis else self.index)
        take = [have.index(x) for x in labels]
        if axis:
            return DataFrame(self.values[:, take], self.index, labels)
        return DataFrame(self.values[take], labels, self.columns)

    def to_numpy(self):
        return self.values.copy()


def numba():
    """The part of numba that is used: functions that are not compiled."""
    mod = types.ModuleType("numba")
    mod.config = types.SimpleNamespace(THREADING_LAYER="default")
    mod.prange = range
    mod.set_num_threads = lambda n: None

    def njit(*args, **kw):
        return args[0] if args and callable(args[0]) else (lambda f: f)

    mod.njit = mod.jit = njit
    return mod


class standing_in:
    def __init__(self, **mods):
        self.mods = mods

    def __enter__(self):
        self.saved = {k: sys.modules.get(k) for k in self.mods}
        for k, m in self.mods.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m

    def __exit__(self, *args):
        for k, m in self.saved.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


# ---------------------------------------------------------------- tables
LABELS = {"whole": [-3, -1, 0, 1, 2, 5, 10, 100], "tenths": [-0.7, -0.1, 0.1, 0.3, 0.6, 0.7, 1.1, 33.3]}


def gen_table():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0, leads=("none", "realization", "time")))
        n = g.size(lay["inner"])
        out = {"lay": lay, "perm": draw(g.permutation(len(lay["dims"]))),
               "kind": [draw(g.sampled(["whole", "tenths"])) for _ in range(2)]}
        size = []
        for i, k in enumerate(out["kind"]):
            labels = draw(g.lists(g.integers(0, 7), min_size=1, max_size=5, unique=True))
            out["labels%d" % i] = labels
            size.append(len(labels))
            place = g.one_of(g.integers(0, len(labels) - 1).map(lambda j: [j, 0]),
                             g.integers(0, len(labels) - 1).map(lambda j: [j, 1]),
                             g.integers(0, len(labels) - 1).map(lambda j: [j, -1]),
                             g.integers(0, len(labels) - 1).map(lambda j: [j, 2]))
            out["v%d" % i] = draw(g.fixed(n, place))
            out["nan%d" % i] = draw(g.one_of(g.just(None), g.just(None), g.fixed(n, g.sampled([0, 0, 1]))))
        out.update(values=draw(g.fixed(size[0] * size[1], g.integers(-50, 50))),
                   vkind=draw(g.sampled(["int", "float", "mixed"])), swap=draw(g.booleans()),
                   name=draw(g.sampled([None, "hail_size"])), units=draw(g.sampled(["m", "1", "K"])),
                   dtype=draw(g.sampled(["f4", "f4", "f8", "i4"])), cols=draw(g.permutation(5)),
                   calls=draw(g.integers(1, 2)), text=draw(g.booleans()),
                   bad=draw(g.sampled([None] * 10 + ["one", "three", "shape", "name"])))
        return out

    return case()


def run_table(case):
    with standing_in(pandas=types.ModuleType("pandas")):
        sys.modules["pandas"].DataFrame = DataFrame
        from improver.utilities.extract_from_table import ExtractValueFromTable
    from vp import cubes as c

    lay, bad = case["lay"], case["bad"]
    shape = tuple(lay["inner"])
    fields, labels, nans = [], [], []
    for i in range(2):
        names = [LABELS[case["kind"][i]][k] for k in case["labels%d" % i]]
        v = np.array([names[j] + {0: 0, 1: 0.04, -1: -0.04, 2: 1000}[where] for j, where in case["v%d" % i]])
        v = v.astype(float)
        nan = np.zeros(len(v), bool)
        if case["dtype"] == "i4":
            v = np.floor(v)
        elif case["nan%d" % i] is not None:
            nan = np.array(case["nan%d" % i], bool)
            v[nan] = np.nan
        fields.append(v.astype(case["dtype"]).reshape(shape))
        labels.append(names)
        nans.append(nan)
    rows, cols = labels
    table, flat = {}, [x / 4 if case["vkind"] == "float" else x for x in case["values"]]
    value = {(r, q): flat[i * len(cols) + j] for i, r in enumerate(rows) for j, q in enumerate(cols)}
    if case["vkind"] == "mixed":
        value[(rows[0], cols[-1])] += 0.5
    for q in [cols[j] for j in case["cols"] if j < len(cols)]:
        table[str(q)] = {str(r): value[(r, q)] for r in rows}
    table = {"data": table, "metadata": {"units": case["units"], "title": "any"}}
    keep = json.dumps(table)
    other = dict(lay, dims=[lay["dims"][i] for i in case["perm"]])

    def make():
        return [c.layout_cube(other, fields[0].copy(), "row_values", "K", attributes=dict(c.ATTRS, mine="row")),
                c.layout_cube(lay, fields[1].copy(), "column_values", "m")]

    row, col = make()
    plugin = ExtractValueFromTable(row_name="row_values", new_name=case["name"])
    if bad:
        args = [row, col]
        if bad == "one":
            args = [row]
        elif bad == "three":
            args.append(c.layout_cube(lay, fields[1].copy(), "more_values", "m"))
        elif bad == "shape":
            big = dict(lay, inner=list(shape[:-1]) + [shape[-1] + 1], grid=dict(lay["grid"], nx=lay["grid"]["nx"] + 1))
            args[1] = c.layout_cube(big, np.zeros(big["inner"], np.float32), "column_values", "m")
        else:
            row.rename("nothing")
        o.raises(ValueError if bad != "name" else Exception, plugin, *args, table=table)
        return True
    before = o.snapshot(col)
    for _ in range(case["calls"]):
        row = make()[0]
        res = plugin(*([col, row] if case["swap"] else [row, col]), table=table)
    o.unchanged(before, col)
    o.equal(json.dumps(table), keep, "the table")

    def find(v, names):
        below = [x for x in names if x <= v + 2e-5]
        return max(below) if below else min(names)

    want = []
    for k, (a, b) in enumerate(zip(fields[0].ravel(), fields[1].ravel())):
        want.append(np.nan if nans[0][k] or nans[1][k] else value[(find(float(a), rows), find(float(b), cols))])
    got = c.aligned(res, lay)
    o.close(got, np.array(want, float).reshape(shape), "values of the table", rtol=1e-6, atol=1e-6)
    whole = all(isinstance(x, int) for x in value.values()) and not (nans[0] | nans[1]).any()
    o.equal(got.dtype.kind, "i" if whole else "f", "type")
    if not whole:
        o.equal(str(got.dtype), "float32", "type")
    o.equal((res.name(), str(res.units)), (case["name"] or "row_values", case["units"]), "result")
    o.equal(dict(res.attributes), dict(c.ATTRS, mine="row"), "attributes")
    o.equal([x.name() for x in res.coords(dim_coords=True)], [x.name() for x in col.coords(dim_coords=True)],
            "dimensions")
    for x in row.coords():
        o.same_coord(res.coord(x.name()), x)
    o.label(case["dtype"], "nan" if (nans[0] | nans[1]).any() else None)
    return len(set(map(str, want))) > 1


# ---------------------------------------------------------------- curves
def gen_curves():
    from vp import gens as g

    @g.composite
    def case(draw):
        m, n = draw(g.integers(1, 6)), draw(g.integers(1, 4))
        step = draw(g.sampled([1, 0.25, 0.1]))
        knots = g.integers(0, 6)
        return {"m": m, "n": n, "step": step,
                "curves": [draw(g.fixed(m, g.integers(-20, 20) if draw(g.booleans()) else knots)) for _ in range(n)],
                "knots": draw(g.fixed(m, knots)), "where": draw(g.sampled(["x", "y"])),
                "x": draw(g.lists(g.sampled([0, 1, 2, 3, 4, 5, 6, 0.5, 1.25, 3.7, -1, 7, 5.5]), min_size=1,
                                  max_size=8)),
                "sorted": draw(g.booleans()), "dtype": draw(g.sampled(["f4", "f8"])),
                "fast": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 10 + ["x", "one", "length"]))}

    return case()


def read(x, xs, ys):
    """Linear interpolation; at a step, the value after it; constant beyond the ends."""
    if x < xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = max(k for k in range(len(xs)) if xs[k] <= x)
    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def run_curves(case):
    from improver.ensemble_copula_coupling import utilities as u

    step = case["step"]
    x = np.array(sorted(case["x"]) if case["sorted"] else case["x"]) * step
    x = x.astype(case["dtype"])
    same_x = case["where"] == "x"
    if same_x:
        xp = np.array(sorted(case["knots"])) * step
        fp = np.array(case["curves"], float)
    else:
        xp = np.array([sorted(r) for r in case["curves"]]) * step
        fp = np.array(case["knots"], float)
    args = [x, xp.astype(case["dtype"]), fp.astype(case["dtype"])]
    before = [a.copy() for a in args]
    with standing_in(numba=numba() if case["fast"] else None), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fn = u.interpolate_multiple_rows_same_x if same_x else u.interpolate_multiple_rows_same_y
        if case["bad"] and case["fast"]:
            if case["bad"] == "x":
                args[0] = args[0][None]
            elif case["bad"] == "one":
                i = 1 if same_x else 2
                args[i] = args[i][None]
            elif same_x:
                args[2] = args[2][:, :0]
            else:
                args[1] = args[1][:, :0]
            o.raises(ValueError, fn, *args)
            return True
        got = fn(*args)
    for a, b in zip(before, args):
        o.equal(a.tolist(), b.tolist(), "arguments")
    a, b, d = (q.astype(float) for q in before)
    if same_x:
        want = [[read(v, b.tolist(), row) for v in a] for row in d.tolist()]
    else:
        want = [[read(v, row, d.tolist()) for v in a] for row in b.tolist()]
    o.equal((np.shape(got), str(got.dtype)), (np.shape(want), "float32"), "shape and type")
    o.close(got, np.array(want), "curves %s at %s" % (o.show([b.tolist(), d.tolist()]), o.show(a.tolist())),
            rtol=1e-4, atol=1e-4)
    o.label("fast" if case["fast"] else "slow", case["where"])
    return len(np.unique(want)) > 1


SUBS = {"table": Sub(gen_table, run_table), "curves": Sub(gen_curves, run_curves)}
