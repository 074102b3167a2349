"""C39: files: what is loaded is what was saved, and a file is complete or untouched."""
import glob
import os
import shutil
import tempfile

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: lists of cubes of any layout, type, mask, units, attributes and cell methods, saved with "
        "any compression and precision and loaded from one or several files with constraints; writes "
        "that fail at any step over an earlier file; non-trivial when a cube has dimensions to order, a "
        "mask, or the write fails part way")
QUICK = 700
THOROUGH = 20000
NAMES = ["air_temperature", "rainfall_rate", "cloud_area_fraction"]
UNITS = ["K", "m s-1", "1"]


def dims(cube):
    return [x.name() for x in cube.coords(dim_coords=True)]


def spec(draw, g):
    lay = draw(g.layout(0, leads=("none", "realization", "time"), spot=True))
    m = draw(g.sampled([0, 0, 2, 3]))
    if m:
        d = [x for x in lay["dims"]]
        d.insert(draw(g.integers(0, len(d))), "main")
        lay = dict(lay, dims=d)
    n = g.size(lay["inner"]) * max(m, 1)
    return {"lay": lay, "m": m, "kind": draw(g.sampled(["percentile", "threshold"])), "v": draw(g.fixed(n, g.integers(-99, 99))),
            "dtype": draw(g.sampled(["f4", "f4", "f4", "i4", "i1"])),
            "mask": draw(g.one_of(g.just(None), g.just(None), g.fixed(n, g.integers(0, 1)))),
            "cms": draw(g.lists(g.sampled(["mean time", "maximum height", "sum time", "mean realization"]), max_size=3, unique=True)),
            "attrs": draw(g.lists(g.sampled(["mosg__grid_version", "mosg__model_configuration", "history", "note",
                                             "least_significant_digit", "um_version", "table"]), max_size=4, unique=True)),
            "var": draw(g.booleans())}


def build(s, i=0):
    from iris.coords import CellMethod
    from vp import cubes as c

    lay, m = s["lay"], s["m"]
    shape = ([m] if m else []) + lay["inner"]
    a = np.array(s["v"], float).reshape(shape)
    a = (a / 7 if s["dtype"] == "f4" else a).astype(s["dtype"])
    if s["mask"] is not None:
        a = np.ma.MaskedArray(a, np.array(s["mask"], bool).reshape(shape))
    main, name, units = None, NAMES[i], UNITS[i]
    if m:
        if s["kind"] == "percentile":
            main = c.percentile_coord([10, 50, 90][:m])
        else:
            main = c.threshold_coord([1, 2, 4][:m], name, units)
            name, units = "probability_of_%s_above_threshold" % name, "1"
    attrs = dict(c.ATTRS)
    for j, k in enumerate(s["attrs"]):
        attrs[k] = {"least_significant_digit": 1, "table": np.array([1, 2, 3], np.int32)}.get(k, "%s %d" % (k, i))
    cube = c.layout_cube(lay, a, name, units, main, attributes=attrs)
    for x in s["cms"]:
        cube.add_cell_method(CellMethod(*x.split()))
    if s["var"]:
        cube.var_name = "something_else"
        cube.coord("forecast_period").var_name = "lead"
    return cube


def scratch():
    return tempfile.mkdtemp(prefix="c39-")


def tuplify(v):
    return v.tolist() if isinstance(v, np.ndarray) else v


def same(got, want, step=None, order=True):
    """The loaded cube is the saved one, in the standard order of dimensions."""
    o.equal(got.name(), want.name(), "name")
    what = "of " + got.name()
    lead = [x for x in ("realization", "percentile") if x in dims(want)]
    lead += [x.name() for x in want.coords(dim_coords=True) if x.var_name == "threshold"]
    tail = [want.coord(axis=x).name() for x in "yx"] if want.coord(axis="x").name() in dims(want) else []
    rest = [x for x in dims(want) if x not in lead + tail]
    o.equal(dims(got) if order else sorted(dims(got)), lead + rest + tail if order else sorted(lead + rest + tail),
            "dimensions " + what)
    o.equal((str(got.units), got.dtype, got.var_name), (str(want.units), want.dtype, None), "units and type " + what)
    want = want.copy()
    want.transpose([dims(want).index(x) for x in dims(got)])
    m = np.ma.getmaskarray(want.data)
    o.equal(np.ma.getmaskarray(got.data).tolist(), m.tolist(), "masked points " + what)
    a, b = np.where(m, 0, np.ma.getdata(got.data)), np.where(m, 0, np.ma.getdata(want.data))
    if step is None:
        o.equal(a.tolist(), b.tolist(), "values " + what)
    else:
        o.close(a.astype(float), b.astype(float), "values " + what, rtol=1e-5, atol=step)
    o.equal(sorted(x.name() for x in got.coords()), sorted(x.name() for x in want.coords()), "coordinates " + what)
    for x in want.coords():
        y = got.coord(x.name())
        o.same_coord(y, x)
        o.equal(y.var_name, "threshold" if x.var_name == "threshold" else None, "variable name of " + x.name())
        o.equal(y.coord_system, x.coord_system, "coordinate system of " + x.name())
    o.equal(sorted(str(x) for x in got.cell_methods), sorted(str(x) for x in want.cell_methods), "cell methods " + what)
    drop = ("Conventions", "least_significant_digit")
    o.equal({k: tuplify(v) for k, v in got.attributes.items() if k not in drop},
            {k: tuplify(v) for k, v in want.attributes.items() if k not in drop}, "attributes " + what)


# ---------------------------------------------------------------- round trip
def gen_round():
    from vp import gens as g

    @g.composite
    def case(draw):
        return {"cubes": [spec(draw, g) for _ in range(draw(g.integers(1, 3)))], "level": draw(g.integers(0, 9)),
                "lsd": draw(g.sampled([None, None, None, 0, 2, 3])), "seq": draw(g.sampled(["cube", "list", "tuple"])),
                "again": draw(g.booleans()), "pick": draw(g.integers(0, 2)), "lazy": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 12 + ["level", "units", "type", "time", "missing"]))}

    return case()


def run_round(case):
    import iris
    from improver.utilities.load import load_cube, load_cubelist
    from improver.utilities.save import save_netcdf
    from iris.cube import CubeList

    cubes = [build(s, i) for i, s in enumerate(case["cubes"])]
    ref = [x.copy() for x in cubes]
    bad = case["bad"]
    path = scratch()
    try:
        out = os.path.join(path, "a.nc")
        arg = cubes[0] if len(cubes) == 1 and case["seq"] == "cube" else tuple(cubes) if case["seq"] == "tuple" else CubeList(cubes)
        if bad and bad != "missing":
            if bad == "level":
                o.raises(ValueError, save_netcdf, arg, out, 10)
                o.raises(ValueError, save_netcdf, arg, out, -1)
            else:
                x = cubes[case["pick"] % len(cubes)]
                if bad == "units":
                    x.units = "unknown"
                elif bad == "type":
                    x.data = x.data.astype(np.float64)
                else:
                    x.coord("time").convert_units("hours since 1970-01-01 00:00:00")
                o.raises(ValueError, save_netcdf, arg, out)
            o.equal(os.listdir(path), [], "files after a refusal")
            return True
        kw = {"compression_level": case["level"]} if case["level"] != 1 else {}
        if case["lsd"] is not None:
            kw["least_significant_digit"] = case["lsd"]
        save_netcdf(arg, out, **kw)
        if case["again"]:
            save_netcdf(arg, out, **kw)
        o.equal(os.listdir(path), ["a.nc"], "files")
        names = [x.name() for x in ref]
        step = None if case["lsd"] is None else 10.0 ** -case["lsd"] * 0.51
        if bad == "missing":
            o.raises(ValueError, load_cubelist, out, "no_such_name")
            o.raises(OSError, load_cubelist, os.path.join(path, "b.nc"))
            return True
        got = load_cubelist(out, no_lazy_load=case["lazy"])
        o.equal(sorted(x.name() for x in got), sorted(names), "cubes")
        for x in ref:
            y = got.extract_cube(x.name()) if hasattr(got, "extract_cube") else [z for z in got if z.name() == x.name()][0]
            same(y, x, step if x.dtype.kind == "f" else None)
        # by name, or a constraint, or from the only cube
        x = ref[case["pick"] % len(ref)]
        same(load_cube(out, x.name()), x, step if x.dtype.kind == "f" else None)
        same(load_cube(out, iris.Constraint(name=x.name())), x, step if x.dtype.kind == "f" else None)
        same(load_cube([out], x.name(), no_lazy_load=True), x, step if x.dtype.kind == "f" else None)
        # the cubes saved are kept, but for the order of their cell methods
        for x, y in zip(cubes, ref):
            o.equal(x.data.tolist(), y.data.tolist(), "values saved")
            o.equal(dims(x), dims(y), "dimensions saved")
            o.equal(sorted(str(z) for z in x.cell_methods), sorted(str(z) for z in y.cell_methods), "cell methods saved")
    finally:
        shutil.rmtree(path)
    o.label("n%d" % len(cubes), *[s["dtype"] for s in case["cubes"]])
    return True


# ---------------------------------------------------------------- several files
def gen_files():
    from vp import gens as g

    @g.composite
    def case(draw):
        s = spec(draw, g)
        s["attrs"] = [x for x in s["attrs"] if x != "history"]
        return {"cube": s, "pieces": draw(g.permutation(3)), "over": draw(g.sampled(["lead", "lead", "main"])),
                "hist": draw(g.booleans()), "glob": draw(g.booleans())}

    return case()


def run_files(case):
    from improver.utilities.load import load_cube, load_cubelist
    from improver.utilities.save import save_netcdf

    cube = build(case["cube"])
    lay = case["cube"]["lay"]
    over = {"lead": lay["lead"] if lay["k"] else None,
            "main": case["cube"]["kind"] if case["cube"]["m"] else None}[case["over"]]
    if over is None:
        o.reject("nothing to split")
    co = cube.coord(var_name="threshold") if over == "threshold" else cube.coord(over)
    n = len(co.points)
    if n < 2:
        o.reject("nothing to split")
    parts = list(cube.slices_over(co))
    path = scratch()
    try:
        files = []
        for i in case["pieces"]:
            if i >= n:
                continue
            p = parts[i].copy()
            if case["hist"]:
                p.attributes["history"] = "made at %d" % i
            f = os.path.join(path, "part%d.nc" % i)
            save_netcdf(p, f)
            files.append(f)
        each = load_cubelist(files)
        o.equal(len(each), n, "cubes")
        pts = [float(x.coord(co.name()).points[0]) for x in each]
        o.equal(pts, [float(co.points[i]) for i in case["pieces"] if i < n], "order of the files")
        got = load_cube(os.path.join(path, "part*.nc") if case["glob"] and not case["hist"] else files)
        want = cube.copy()
        for k in ("history",):
            got.attributes.pop(k, None)
        same(got, want, order=False)
        o.equal(sorted(np.ma.filled(got.data, 0).ravel().tolist()), sorted(np.ma.filled(want.data, 0).ravel().tolist()), "all values")
        o.equal(got.coord(co.name()).points.tolist(), co.points.tolist(), "merged coordinate")
    finally:
        shutil.rmtree(path)
    return True


# ---------------------------------------------------------------- writes that fail
def gen_atomic():
    from vp import gens as g

    @g.composite
    def case(draw):
        return {"old": spec(draw, g), "new": [spec(draw, g) for _ in range(draw(g.integers(1, 2)))],
                "step": draw(g.integers(0, 60)), "exists": draw(g.integers(0, 3)) > 0, "level": draw(g.sampled([0, 1, 9])),
                "fail": draw(g.sampled(["fail", "fail", "watch"]))}

    return case()


def run_atomic(case):
    import netCDF4
    from improver.utilities.load import load_cubelist
    from improver.utilities.save import save_netcdf
    from iris.cube import CubeList

    old = build(case["old"])
    new = [build(s, i) for i, s in enumerate(case["new"])]
    ref = [x.copy() for x in new]
    path = scratch()
    out = os.path.join(path, "a.nc")
    count = [0]
    fail = case["fail"] == "fail"

    def content():
        if not os.path.exists(out):
            return None
        with open(out, "rb") as f:
            return f.read()

    def tick():
        # a reader at this moment sees the file as it was
        o.check(content() == before, "the file changed while it was written (step %d)", count[0])
        if fail and count[0] == case["step"]:
            raise OSError("no space left on device")
        count[0] += 1

    real = netCDF4.Dataset

    class Faulty(real):
        def createDimension(self, *args, **kwargs):
            tick()
            return real.createDimension(self, *args, **kwargs)

        def createVariable(self, *args, **kwargs):
            tick()
            var = real.createVariable(self, *args, **kwargs)
            tick()
            return var

        def close(self):
            real.close(self)
            if self.filepath_written:
                tick()

        filepath_written = True

    try:
        if case["exists"]:
            save_netcdf(old, out)
        before = content()
        netCDF4.Dataset = Faulty
        try:
            save_netcdf(CubeList(new), out, case["level"])
            failed = False
        except OSError as err:
            if "no space left" not in str(err):
                raise
            failed = True
        finally:
            netCDF4.Dataset = real
        if failed:
            o.check(content() == before, "a failed write changed the file")
            if case["exists"]:
                same(load_cubelist(out)[0], build(case["old"]))
            # and the next attempt succeeds whatever was left behind
            save_netcdf(CubeList(new), out, case["level"])
        got = load_cubelist(out)
        o.equal(len(got), len(ref), "cubes")
        for x in ref:
            same([z for z in got if z.name() == x.name()][0], x)
        o.equal([os.path.basename(x) for x in glob.glob(os.path.join(path, "*"))], ["a.nc"], "files")
        o.label("failed" if failed else "complete", "over a file" if case["exists"] else "new file")
        return failed or case["exists"]
    finally:
        netCDF4.Dataset = real
        shutil.rmtree(path)


SUBS = {"round": Sub(gen_round, run_round, 3), "files": Sub(gen_files, run_files, 2), "atomic": Sub(gen_atomic, run_atomic, 2)}
