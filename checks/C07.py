"""C07: recursive filter, smoothing coefficients, halos."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: 2-3 dimensional fields with masks, random coefficient fields up to 0.5, 1-3 "
        "iterations, edge widths 1-4; orographies with masks; halos; non-trivial when the "
        "expected field differs from the input (filter), coefficients vary (orography)")
QUICK = 3000
THOROUGH = 40000


def gen():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(3, 6, kinds=("laea", "latlon"), square=True, desc=False))
        nr = draw(g.sampled([0, 0, 1, 2]))
        ny, nx = grid["ny"], grid["nx"]
        shape = ([nr] if nr else []) + [ny, nx]
        return {"grid": grid, "nr": nr, "shape": shape,
                "values": draw(g.field(shape, g.grid_ints(0, 1, 0.125))),
                "mask": draw(g.mask([ny, nx])),
                "cx": draw(g.field([ny, nx - 1], g.grid_ints(0, 0.5, 0.0625))),
                "cy": draw(g.field([ny - 1, nx], g.grid_ints(0, 0.5, 0.0625))),
                "iterations": draw(g.integers(1, 3)), "edge": draw(g.integers(1, 4)),
                "swap": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 8 + ["big", "name", "grid", "iter"])),
                "bad_at": draw(g.integers(0, 100)), "times": draw(g.times())}

    return case()


def mirror(i, n):
    """Index of a symmetric extension (edge point repeated)."""
    i = i % (2 * n)
    return i if i < n else 2 * n - 1 - i


def extend(a, w):
    ny, nx = a.shape
    jj = [mirror(j, ny) for j in range(-w, ny + w)]
    ii = [mirror(i, nx) for i in range(-w, nx + w)]
    return a[np.ix_(jj, ii)]


def sweep(row, k):
    """One forward and one backward pass along a line."""
    row = list(row)
    for i in range(1, len(row)):
        row[i] = (1 - k[i - 1]) * row[i] + k[i - 1] * row[i - 1]
    for i in range(len(row) - 2, -1, -1):
        row[i] = (1 - k[i]) * row[i] + k[i] * row[i + 1]
    return row


def reference(a, cx, cy, edge, iterations):
    w = 2 * edge
    g, kx, ky = extend(a, w), extend(cx, w), extend(cy, w)
    for _ in range(iterations):
        g = np.array([sweep(g[j], kx[j]) for j in range(g.shape[0])])
        g = np.array([sweep(g[:, i], ky[:, i]) for i in range(g.shape[1])]).T
    return g[w:-w, w:-w]


def mid_coord(coord):
    p = coord.points
    return coord.copy(points=((p[1:] + p[:-1]) / 2).astype(np.float32))


def run(case):
    import iris
    from improver.nbhood.recursive_filter import RecursiveFilter
    from vp import cubes as c

    grid = case["grid"]
    grid["bounds"] = False
    ny, nx = grid["ny"], grid["nx"]
    data = np.array(case["values"], np.float32).reshape(case["shape"])
    mask = None
    if case["mask"] is not None:
        mask = np.array(case["mask"], bool).reshape(ny, nx)
        data = np.ma.masked_array(data, np.broadcast_to(mask, data.shape).copy())
    if nx < 2 or ny < 2:
        o.reject()
    lead = [c.realization_coord(range(case["nr"]))] if case["nr"] else []
    cube = c.new_cube(data, "rainfall_rate", "m s-1", lead + c.yx_coords(grid),
                      c.time_coords(case["times"]))
    y, x = c.yx_coords(grid)
    cx = np.array(case["cx"], np.float32).reshape(ny, nx - 1)
    cy = np.array(case["cy"], np.float32).reshape(ny - 1, nx)
    bad = case["bad"]
    if bad == "big":
        cx.ravel()[case["bad_at"] % cx.size] = 0.5 + 0.01
    if nx == 2 or ny == 2:
        o.reject("coefficients on a single line")
    coeffs = iris.cube.CubeList([
        c.new_cube(cx.copy(), "smoothing_coefficient_x", "1", [y.copy(), mid_coord(x)]),
        c.new_cube(cy.copy(), "smoothing_coefficient_y", "1", [mid_coord(y), x.copy()])])
    if bad == "name":
        coeffs[1].rename("smoothing_coefficient_z")
    if bad == "grid":
        k = case["bad_at"] % 2
        co = coeffs[k].coord(axis="xy"[(case["bad_at"] // 2) % 2])
        co.points = (co.points + 0.25 * grid["dx"]).astype(np.float32)
    if case["swap"]:
        coeffs = iris.cube.CubeList(coeffs[::-1])
    if bad == "iter":
        o.raises(ValueError, RecursiveFilter, iterations=-(case["bad_at"] % 3))
        return False
    plugin = RecursiveFilter(iterations=case["iterations"], edge_width=case["edge"])
    if bad:
        o.raises(ValueError, plugin, cube, coeffs)
        o.label("bad " + bad)
        return False
    orig = data.astype(np.float64)
    o_data, o_mask = o.plain(orig)
    if mask is not None:
        zx = mask[:, 1:] | mask[:, :-1]
        zy = mask[1:] | mask[:-1]
        cx = np.where(zx, 0, cx)
        cy = np.where(zy, 0, cy)
    result = plugin(cube, coeffs)
    o.equal(result.shape, cube.shape, "shape")
    o.equal([k.name() for k in result.coords(dim_coords=True)],
            [k.name() for k in cube.coords(dim_coords=True)], "dimensions")
    o.close(result.coord(axis="x").points, x.points, "x points")
    o.close(result.coord(axis="y").points, y.points, "y points")
    want = np.empty(o_data.shape)
    for idx in np.ndindex(*o_data.shape[:-2]):
        want[idx] = reference(o_data[idx], cx.astype(float), cy.astype(float), case["edge"],
                              case["iterations"])
    o.close_masked(result.data, want, o_mask, "filtered field", rtol=1e-5, atol=1e-5)
    # averages can not leave the range of the input
    if (~o_mask).any():
        o.within(result.data, o_data[~o_mask].min(), o_data[~o_mask].max(),
                 "filtered field", tol=1e-5)
    o.label("masked" if mask is not None and mask.any() else "no mask",
            "%d iterations" % case["iterations"])
    return bool((np.abs(want - o_data)[~o_mask] > 1e-4).any())


def gen_coeff():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(3, 6, kinds=("laea",), desc=False))
        shape = [grid["ny"], grid["nx"]]
        return {"grid": grid, "shape": shape,
                "values": draw(g.field(shape, g.grid_ints(-10, 500, 10))),
                "lo": draw(g.sampled([0.0, 0.1, 0.25, 0.5])),
                "hi": draw(g.sampled([0.0, 0.1, 0.25, 0.5])),
                "power": draw(g.sampled([1, 2, 0.5])), "mask": draw(g.mask(shape)),
                "mode": draw(g.sampled(["boundary", "inside", "outside"])),
                "mtype": draw(g.sampled(["int8", "int32", "float32"])),
                "order": draw(g.booleans()),
                "scal": draw(g.booleans()),
                "bad": draw(g.sampled([None] * 9 + [-0.1, 0.6, "dims", "mask"]))}

    return case()


def run_coeff(case):
    from improver.generate_ancillaries.generate_orographic_smoothing_coefficients import (
        OrographicSmoothingCoefficients)
    from vp import cubes as c

    if isinstance(case["bad"], float):
        o.raises(ValueError, OrographicSmoothingCoefficients,
                 min_gradient_smoothing_coefficient=case["bad"])
        o.raises(ValueError, OrographicSmoothingCoefficients,
                 max_gradient_smoothing_coefficient=case["bad"])
        return False
    grid = case["grid"]
    z = np.array(case["values"], np.float32).reshape(case["shape"])
    dims = c.yx_coords(grid)
    scal = c.time_coords({"frt": 1510286400, "fp": 3600}) + [c.realization_coord([0])[0]] if case["scal"] else []
    cube = c.new_cube(z.copy(), "surface_altitude", "m", dims, scal, dict(c.ATTRS, history="made today"))
    if case["bad"] == "dims":
        lead = [c.realization_coord(range(2))]
        o.raises(ValueError, OrographicSmoothingCoefficients(),
                 c.new_cube(np.stack([z, z]), "surface_altitude", "m", lead + c.yx_coords(grid)))
        return True
    if case["bad"] == "mask":
        other = c.new_cube(z > 0, "land_binary_mask", "1", c.yx_coords(dict(grid, x0=grid["x0"] + 7)))
        o.raises(ValueError, OrographicSmoothingCoefficients(), cube, other)
        return True
    mcube = None
    m = None
    if case["mask"] is not None:
        m = np.array(case["mask"]).reshape(case["shape"])
        mcube = c.new_cube(m.astype(case["mtype"]), "land_binary_mask", "1",
                           c.yx_coords(grid))
    if case["order"]:
        cube.transpose()
        if mcube is not None:
            mcube.transpose()
    zd = z.astype(np.float64)
    gx = np.abs(np.diff(zd, axis=1) / grid["dx"]) ** case["power"]
    gy = np.abs(np.diff(zd, axis=0) / grid["dy"]) ** case["power"]
    both = np.concatenate([gx.ravel(), gy.ravel()])
    lo, hi = both.min(), both.max()
    if hi - lo < 1e-6 * max(hi, 1e-12):
        o.reject("uniform gradient")
    sx = (gx - lo) / (hi - lo) * (case["hi"] - case["lo"]) + case["lo"]
    sy = (gy - lo) / (hi - lo) * (case["hi"] - case["lo"]) + case["lo"]
    if m is not None:
        px, qx = m[:, 1:], m[:, :-1]
        py, qy = m[1:], m[:-1]
        if case["mode"] == "boundary":
            zx, zy = px != qx, py != qy
        elif case["mode"] == "inside":
            zx, zy = (px == 1) | (qx == 1), (py == 1) | (qy == 1)
        else:
            zx, zy = (px == 0) | (qx == 0), (py == 0) | (qy == 0)
        sx, sy = np.where(zx, 0, sx), np.where(zy, 0, sy)
    kw = {k: v for k, v, usual in [("power", case["power"], 1), ("use_mask_boundary", case["mode"] == "boundary", False),
                                   ("invert_mask", case["mode"] == "outside", False),
                                   ("min_gradient_smoothing_coefficient", case["lo"], 0.5),
                                   ("max_gradient_smoothing_coefficient", case["hi"], 0.0)]
          if v != usual or case["scal"]}
    plugin = OrographicSmoothingCoefficients(**kw)
    before = [(x, o.snapshot(x)) for x in (cube, mcube) if x is not None]
    plugin(cube, mcube)
    rx, ry = plugin(cube, mcube)
    for x, y in before:
        o.unchanged(y, x)
    for res, want, name in ((rx, sx, "smoothing_coefficient_x"),
                            (ry, sy, "smoothing_coefficient_y")):
        o.equal((res.name(), str(res.units), res.dtype), (name, "1", np.dtype("f4")), "name")
        o.equal(sorted(x.name() for x in res.coords()), sorted(x.name() for x in dims), "coordinates")
        o.equal((res.attributes.get("title"), res.attributes.get("power"), "history" in res.attributes),
                ("Recursive filter smoothing coefficients", case["power"], False), "attributes")
        got = res.data
        xfirst = res.coord_dims(res.coord(axis="x"))[0] == 0
        o.equal(xfirst, case["order"], "dimension order follows the orography")
        o.close(got.T if xfirst else got, want, name, rtol=2e-4, atol=2e-5)
        o.within(got, 0.0, 0.5, name, tol=1e-6)
    px = (dims[1].points[1:] + dims[1].points[:-1]) / 2
    o.close(rx.coord(axis="x").points, px, "x points of the x coefficients")
    o.close(rx.coord(axis="y").points, dims[0].points, "y points of the x coefficients")
    o.label(case["mode"] if m is not None else "no mask", "power %s" % case["power"])
    return True


def gen_halo():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(2, 6, kinds=("laea",), desc=True))
        lead = draw(g.sampled([0, 0, 1, 2]))
        shape = ([lead] if lead else []) + [grid["ny"], grid["nx"]]
        return {"grid": grid, "lead": lead, "shape": shape,
                "values": draw(g.field(shape, g.grid_ints(-9, 9, 0.5))),
                "wx": draw(g.integers(0, 4)), "wy": draw(g.integers(0, 4)),
                "method": draw(g.sampled(["constant", "symmetric", "mean"])),
                "r": draw(g.sampled([1000.0, 2000.0, 3000.0, 4000.0, 5000.0]))}

    return case()


def run_halo(case):
    from improver.utilities.pad_spatial import (
        create_cube_with_halo, pad_cube_with_halo, remove_cube_halo, remove_halo_from_cube)
    from vp import cubes as c

    grid = case["grid"]
    data = np.array(case["values"], np.float32).reshape(case["shape"])
    lead = [c.realization_coord(range(case["lead"]))] if case["lead"] else []
    dims = c.yx_coords(grid)
    cube = c.new_cube(data.copy(), "rainfall_rate", "m s-1", lead + dims,
                      c.time_coords({"frt": 1510286400, "fp": 3600}))
    sl = next(cube.slices([cube.coord(axis="y"), cube.coord(axis="x")]))
    wx, wy, meth = case["wx"], case["wy"], case["method"]
    if meth == "mean" and (wx < 2 or wy < 2):
        meth = "symmetric"
    before = o.snapshot(sl)
    padded = pad_cube_with_halo(sl, wx, wy, pad_method=meth)
    o.unchanged(before, sl)
    ny, nx = grid["ny"], grid["nx"]
    o.equal(padded.shape, (ny + 2 * wy, nx + 2 * wx), "padded shape")
    a = sl.data
    if meth == "constant":
        want = np.zeros(padded.shape)
        want[wy:wy + ny, wx:wx + nx] = a
        o.close(padded.data, want, "padded data")
    elif meth == "symmetric":
        want = a[np.ix_([mirror(j, ny) for j in range(-wy, ny + wy)],
                        [mirror(i, nx) for i in range(-wx, nx + wx)])]
        o.close(padded.data, want, "padded data")
    for axis, w, co in (("x", wx, dims[1]), ("y", wy, dims[0])):
        step = co.points[1] - co.points[0]
        n = co.points.size
        pts = co.points[0] + step * np.arange(-w, n + w)
        o.close(padded.coord(axis=axis).points, pts, "padded %s points" % axis, rtol=1e-6,
                atol=0.5)
        bnd = np.sort(padded.coord(axis=axis).bounds, axis=1)
        o.close(bnd, np.stack([pts - abs(step) / 2, pts + abs(step) / 2], 1),
                "padded %s bounds" % axis, rtol=1e-6, atol=0.5)
    back = remove_halo_from_cube(padded, wx, wy)
    o.close(back.data, a, "round trip data")
    for axis in "xy":
        o.close(back.coord(axis=axis).points, sl.coord(axis=axis).points,
                "round trip points", rtol=1e-6, atol=0.5)
    o.equal(back.name(), sl.name(), "name")
    o.equal(sorted(k.name() for k in back.coords()), sorted(k.name() for k in sl.coords()),
            "coordinates")
    # halo in metres, per-axis spacing
    kx, ky = int(case["r"] // grid["dx"]), int(case["r"] // grid["dy"])
    if kx >= 1 and ky >= 1:
        halo = create_cube_with_halo(cube, case["r"])
        o.equal(halo.shape, (ny + 2 * ky, nx + 2 * kx), "halo grid shape")
        if ny - 2 * ky >= 2 and nx - 2 * kx >= 2:
            cut = remove_cube_halo(cube, case["r"])
            o.close(cut.data, data[..., ky:ny - ky, kx:nx - kx], "cut data")
            o.equal([k.name() for k in cut.coords(dim_coords=True)],
                    [k.name() for k in cube.coords(dim_coords=True)], "dimensions")
            o.close(cut.coord(axis="x").points, dims[1].points[kx:nx - kx], "cut x")
            o.close(cut.coord(axis="y").points, dims[0].points[ky:ny - ky], "cut y")
            o.label("cut")
    o.label(meth)
    return wx + wy > 0


SUBS = {"filter": Sub(gen, run, 3), "coefficients": Sub(gen_coeff, run_coeff, 2),
        "halo": Sub(gen_halo, run_halo, 2)}
