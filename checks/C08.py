"""C08: grid geometry - spacing, distances, differences and gradients, transforms."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: projected (m or km) and latitude-longitude grids, ascending and descending, "
        "circular or not, irregular in latitude-longitude, 2-3 dimensional fields with values in "
        "any order of dimensions; non-trivial when the field varies and the grid has more than "
        "one point along both axes")
QUICK = 5000
THOROUGH = 60000
LAT, LON = "latitude", "longitude"


def gen():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(2, 5))
        circ = False
        irr = None
        if grid["kind"] == "latlon":
            if draw(g.integers(0, 2)) == 0:
                circ = True
                grid["nx"] = draw(g.sampled([4, 6, 8]))
                grid["dx"] = 360.0 / grid["nx"]
                grid["x0"] = draw(g.sampled([-180, 0, -150]))
                grid["xdesc"] = False
            else:
                irr = [draw(g.fixed(8, g.sampled([0, 0, 0.5, 0.25]))),
                       draw(g.fixed(8, g.sampled([0, 0, 0.5, 0.25])))] if draw(
                           g.booleans()) else None
        else:
            grid["ydesc"] = grid["xdesc"] = False
        grid["bounds"] = False
        shape = [grid["ny"], grid["nx"]]
        return {"grid": grid, "circ": circ, "irr": irr, "shape": shape,
                "km": draw(g.booleans()) if grid["kind"] == "laea" else False,
                "regrid": draw(g.integers(0, 2)) == 0,
                "values": draw(g.field(shape, g.grid_ints(-40, 40, 0.5))),
                "times": draw(g.times()), "swap": draw(g.integers(0, 3)) == 0}

    return case()


def build(case):
    from vp import cubes as c

    grid = case["grid"]
    dims = c.yx_coords(grid)
    if case["irr"]:
        for k in (0, 1):
            p = dims[k].points.copy()
            p = p + np.array(case["irr"][k][:len(p)], np.float32) * np.float32(
                min(grid["dy"], grid["dx"]) / 2)
            dims[k] = dims[k].copy(points=p)
    if case["circ"]:
        dims[1].circular = True
    if case["km"]:
        for d in dims:
            d.convert_units("km")
    data = np.array(case["values"], np.float32).reshape(case["shape"])
    return c.new_cube(data, "surface_altitude", "m", dims, c.time_coords(case["times"]))


def mids(p, wrap=False):
    p = p.astype(np.float64)
    if wrap:
        p = np.append(p, 360 + p[0])
    return (p[1:] + p[:-1]) / 2


def expected(case, y, x, z):
    """Distances and differences along x and y."""
    circ = case["circ"]
    if case["grid"]["kind"] == "laea":
        f = 1000.0 if case["km"] else 1.0
        dx = np.abs(np.diff(x)) * f
        dy = np.abs(np.diff(y)) * f
        ddx = np.tile(dx, (len(y), 1))
        ddy = np.tile(dy[:, None], (1, len(x)))
    else:
        r = 6371229.0
        lon = np.append(x, x[0] + 360) if circ else x
        ddx = r * np.cos(np.radians(y))[:, None] * np.radians(np.diff(lon))[None]
        ddy = np.tile((r * np.radians(np.diff(y)))[:, None], (1, len(x)))
    zz = np.concatenate([z, z[:, :1]], axis=1) if circ else z
    return ddx, ddy, np.diff(zz, axis=1), np.diff(z, axis=0)


def run(case):
    from improver.utilities.spatial import (
        DifferenceBetweenAdjacentGridSquares, DistanceBetweenGridSquares,
        GradientBetweenAdjacentGridSquares)

    cube = build(case)
    y = cube.coord(axis="y").points.astype(np.float64)
    x = cube.coord(axis="x").points.astype(np.float64)
    z = cube.data.astype(np.float64)
    wx, wy, dzx, dzy = expected(case, y, x, z)
    gx, gy = GradientBetweenAdjacentGridSquares(regrid=case["regrid"])(cube.copy())
    bx, by = DifferenceBetweenAdjacentGridSquares()(cube.copy())
    for r, word in ((bx, "difference_of_"), (by, "difference_of_"), (gx, "gradient_of_"), (gy, "gradient_of_")):
        o.equal(r.name(), word + "surface_altitude", "name")
        o.equal(str(r.units), "m" if r in (bx, by) else "1", "units of " + r.name())
        o.equal(sorted(q.name() for q in r.coords()), sorted(q.name() for q in cube.coords()), "coordinates of " + r.name())
        for q in cube.coords():
            if not q.name().endswith("tude") and not q.name().startswith("projection"):
                o.same_coord(r.coord(q.name()), q)
        for k, v in cube.attributes.items():
            if k != "title":
                o.equal(r.attributes.get(k), v, "attribute %s of %s" % (k, r.name()))
        o.equal("form_of_difference" in r.attributes, word.startswith("diff"), "form of difference of " + r.name())
    for r, axis in ((bx, "x"), (by, "y")):
        name = cube.coord(axis=axis).name()
        o.equal([(m.method, tuple(m.coord_names), tuple(m.intervals)) for m in r.cell_methods],
                [("difference", (name,), ("1 grid length",))], "cell methods of the difference")
    if case.get("swap"):
        turned = cube.copy()
        turned.transpose([1, 0])
        for plugin, want in ((DifferenceBetweenAdjacentGridSquares(), (bx, by)),):
            for r, w in zip(plugin(turned.copy()), want):
                names = [q.name() for q in r.coords(dim_coords=True)]
                order = [names.index(q.name()) for q in w.coords(dim_coords=True)]
                o.close(r.data.transpose(order), w.data, "%s of the transposed grid" % w.name(), rtol=1e-4)
                for q in w.coords(dim_coords=True):
                    o.close(r.coord(q.name()).points, q.points, "points for the transposed grid")
    keep = o.snapshot(cube)
    ax, ay = DistanceBetweenGridSquares()(cube)
    o.unchanged(keep, cube)
    o.close(ax.data, wx, "x distances", rtol=3e-5)
    o.close(ay.data, wy, "y distances", rtol=3e-5)
    o.equal(str(ax.units), "m", "distance units")
    o.close(bx.data, dzx, "x differences", atol=1e-4)
    o.close(by.data, dzy, "y differences", atol=1e-4)
    o.equal(bx.name(), "difference_of_surface_altitude", "name")
    f = 1.0
    mx, my = mids(x, case["circ"]), mids(y)
    for cube_, fac in ((bx, 1.0), (ax, f)):
        o.close(cube_.coord(axis="x").points, mx * fac, "x mid-points", rtol=1e-5, atol=1e-4)
        o.close(cube_.coord(axis="y").points, y * fac, "y points", rtol=1e-5, atol=1e-4)
    for cube_, fac in ((by, 1.0), (ay, f)):
        o.close(cube_.coord(axis="y").points, my * fac, "y mid-points", rtol=1e-5, atol=1e-4)
        o.close(cube_.coord(axis="x").points, x * fac, "x points", rtol=1e-5, atol=1e-4)
    with np.errstate(all="ignore"):
        sx, sy = dzx / wx, dzy / wy
    if np.abs(wx).min() < 1.0:
        o.reject("pole")
    scale = max(np.abs(sx).max(), np.abs(sy).max(), 1e-9)
    o.equal(gx.name(), "gradient_of_surface_altitude", "name")
    if not case["regrid"]:
        o.close(gx.data, sx, "x gradient", rtol=1e-4, atol=1e-5 * scale)
        o.close(gy.data, sy, "y gradient", rtol=1e-4, atol=1e-5 * scale)
    else:
        o.equal(gx.shape, cube.shape, "regridded shape")
        o.equal(gy.shape, cube.shape, "regridded shape")
        if not case["circ"]:
            if len(mx) > 1:
                o.close(gx.data, extrap(mx, x, sx), "regridded x gradient", rtol=1e-3,
                        atol=1e-4 * scale)
            if len(my) > 1:
                o.close(gy.data, extrap(my, y, sy.T).T, "regridded y gradient", rtol=1e-3,
                        atol=1e-4 * scale)
    o.label(case["grid"]["kind"], "circular" if case["circ"] else "not circular",
            "regrid" if case["regrid"] else "midpoints",
            "irregular" if case["irr"] else "regular", "km" if case["km"] else "native")
    return z.min() != z.max()


def extrap(xs, xt, v):
    """Linear interpolation / extrapolation along the last axis."""
    out = np.zeros(v.shape[:-1] + (len(xt),))
    if xs[0] > xs[-1]:
        xs, v = xs[::-1], v[..., ::-1]
    for k, t in enumerate(xt):
        i = min(max(int(np.searchsorted(xs, t)) - 1, 0), len(xs) - 2)
        w = (t - xs[i]) / (xs[i + 1] - xs[i])
        out[..., k] = v[..., i] * (1 - w) + v[..., i + 1] * w
    return out


def gen_cells():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(2, 6))
        return {"grid": grid, "jump": draw(g.sampled([None, None, None, "y", "x"])),
                "at": draw(g.integers(0, 10)), "by": draw(g.sampled([0.25, -0.25, 0.01])),
                "km": draw(g.booleans()), "cells": draw(g.integers(-1, 5)),
                "frac": draw(g.sampled([0.0, 0.25, 0.5, 0.99])),
                "axis": draw(g.sampled(["x", "y"])), "order": draw(g.booleans())}

    return case()


def run_cells(case):
    from improver.utilities.spatial import (
        calculate_grid_spacing, check_if_grid_is_equal_area,
        distance_to_number_of_grid_cells, get_grid_y_x_values,
        number_of_grid_cells_to_distance)
    from vp import cubes as c

    grid = case["grid"]
    dims = c.yx_coords(grid)
    broken = None
    if case["jump"]:
        k = 0 if case["jump"] == "y" else 1
        n = len(dims[k].points)
        p = dims[k].points.astype(np.float64)
        j = 1 + case["at"] % (n - 1)
        step = abs(p[1] - p[0])
        if n > 2:
            p[j:] += case["by"] * step * np.sign(p[1] - p[0])
            broken = case["jump"]
            dims[k] = dims[k].copy(points=p.astype(np.float32))
            dims[k].bounds = None
    cube = c.new_cube(np.zeros((grid["ny"], grid["nx"]), np.float32), "air_temperature", "K",
                      dims)
    if case["order"]:
        cube.transpose()
    yy, xx = get_grid_y_x_values(cube)
    o.close(yy, np.tile(dims[0].points[:, None], (1, grid["nx"])), "y values")
    o.close(xx, np.tile(dims[1].points[None], (grid["ny"], 1)), "x values")
    keep = o.snapshot(cube)
    axis = case["axis"]
    native = "m" if grid["kind"] == "laea" else "degrees"
    if broken == axis:
        o.raises(ValueError, calculate_grid_spacing, cube, native, axis=axis)
        o.label("irregular refused")
    else:
        o.close(calculate_grid_spacing(cube, native, axis=axis), grid["d" + axis], "spacing",
                rtol=2e-5)
    if grid["kind"] == "latlon":
        o.raises(ValueError, check_if_grid_is_equal_area, cube)
        o.raises(ValueError, distance_to_number_of_grid_cells, cube, 5000.0)
        o.label("lat-lon refused")
        return False
    if broken or grid["dx"] != grid["dy"]:
        o.raises(ValueError, check_if_grid_is_equal_area, cube)
        o.raises(ValueError, number_of_grid_cells_to_distance, cube, 2)
        if not broken:
            check_if_grid_is_equal_area(cube, require_equal_xy_spacing=False)
        o.label("unequal refused")
    else:
        check_if_grid_is_equal_area(cube)
        o.close(number_of_grid_cells_to_distance(cube, case["cells"]),
                case["cells"] * grid["dx"], "distance", rtol=1e-5)
        if case["km"]:
            o.close(calculate_grid_spacing(cube, "km", axis=axis), grid["d" + axis] / 1000.0,
                    "spacing in km", rtol=1e-5)
    if broken != axis:
        d = (case["cells"] + case["frac"]) * grid["d" + axis]
        if d <= 0:
            o.raises(ValueError, distance_to_number_of_grid_cells, cube, d, axis=axis)
        else:
            o.close(distance_to_number_of_grid_cells(cube, d, axis=axis, return_int=False),
                    case["cells"] + case["frac"], "cells", rtol=1e-5)
            if case["cells"] < 1:
                o.raises(ValueError, distance_to_number_of_grid_cells, cube, d, axis=axis)
            elif case["frac"] > 0:
                n = distance_to_number_of_grid_cells(cube, d, axis=axis)
                o.equal(n, case["cells"], "whole cells")
                o.check(isinstance(n, int), "cells are not an integer: %r", n)
    o.unchanged(keep, cube)
    return True


A, B = 6378137.0, 6356752.314140356
E2 = 1 - (B / A) ** 2
E = np.sqrt(E2)


def _q(phi):
    s = np.sin(phi)
    return (1 - E2) * (s / (1 - E2 * s * s) - np.log((1 - E * s) / (1 + E * s)) / (2 * E))


def laea(lat, lon, lat0=54.9, lon0=-2.5):
    """Snyder's forward ellipsoidal Lambert azimuthal equal area projection."""
    phi, lam = np.radians(lat), np.radians(lon - lon0)
    p1 = np.radians(lat0)
    qp = _q(np.pi / 2)
    b, b1 = np.arcsin(_q(phi) / qp), np.arcsin(_q(p1) / qp)
    rq = A * np.sqrt(qp / 2)
    d = A * np.cos(p1) / np.sqrt(1 - E2 * np.sin(p1) ** 2) / (rq * np.cos(b1))
    k = rq * np.sqrt(2 / (1 + np.sin(b1) * np.sin(b) + np.cos(b1) * np.cos(b) * np.cos(lam)))
    return (k * d * np.cos(b) * np.sin(lam),
            (k / d) * (np.cos(b1) * np.sin(b) - np.sin(b1) * np.cos(b) * np.cos(lam)))


def gen_trans():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(1, 4, kinds=("laea",)))
        grid["x0"] *= draw(g.sampled([1, 20]))
        grid["y0"] *= draw(g.sampled([1, 20]))
        return {"grid": grid, "km": draw(g.booleans()), "order": draw(g.booleans())}

    return case()


def run_trans(case):
    from improver.utilities.spatial import lat_lon_determine, transform_grid_to_lat_lon
    from vp import cubes as c

    grid = case["grid"]
    dims = c.yx_coords(grid)
    x, y = dims[1].points.astype(float), dims[0].points.astype(float)
    if case["km"]:
        for d in dims:
            d.convert_units("km")
    cube = c.new_cube(np.zeros((grid["ny"], grid["nx"]), np.float32), "air_temperature", "K",
                      dims)
    if case["order"]:
        cube.transpose()
    keep = o.snapshot(cube)
    lats, lons = transform_grid_to_lat_lon(cube)
    px, py = laea(np.asarray(lats, float), np.asarray(lons, float))
    o.close(px, np.tile(x[None], (grid["ny"], 1)), "projected x", atol=2.0)
    o.close(py, np.tile(y[:, None], (1, grid["nx"])), "projected y", atol=2.0)
    o.unchanged(keep, cube)
    o.check(lat_lon_determine(cube) is not None, "projected grid taken for lat-lon")
    o.label("km" if case["km"] else "m")
    return True


SUBS = {"gradient": Sub(gen, run, 3), "cells": Sub(gen_cells, run_cells, 1.5),
        "transform": Sub(gen_trans, run_trans, 0.5)}
