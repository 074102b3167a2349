"""C22: the choice of a grid point for each site."""
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: site lists (inside, on the rims of and outside the domain, with and without altitudes "
        "and identifiers) for regional equal-area and global latitude-longitude grids, with land masks, "
        "orography, radii and node limits; non-trivial when two sites or more are kept and land, sea "
        "and heights differ over the grid")
QUICK = 2400
THOROUGH = 40000


def gen_select():
    from vp import gens as g

    @g.composite
    def case(draw):
        globe = draw(g.integers(0, 2)) == 0
        if globe:
            step = draw(g.sampled([30, 45, 60]))
            nx, ny = 360 // step, draw(g.integers(2, 180 // step))
            grid = {"nx": nx, "ny": ny, "dx": step, "dy": step,
                    "x0": draw(g.sampled([0, -180, step / 2, -180 + step / 2])),
                    "y0": -90 + step / 2 + step * draw(g.integers(0, 180 // step - ny))}
            radius = draw(g.sampled([2e6, 3.5e6, 5e6, 9e6]))
        else:
            nx, ny = draw(g.integers(2, 7)), draw(g.integers(2, 7))
            grid = {"nx": nx, "ny": ny, "dx": draw(g.sampled([2000, 2000, 3000])), "dy": 2000,
                    "x0": draw(g.integers(-9, 3)) * 1000, "y0": draw(g.integers(-9, 3)) * 1000,
                    "ydesc": draw(g.integers(0, 5)) == 0, "xdesc": draw(g.integers(0, 9)) == 0}
            radius = draw(g.sampled([1600.0, 3300.0, 4700.0, 10000.0]))
        n = draw(g.integers(1, 6))
        site = []
        ids = draw(g.sampled(["none", "none", "ok", "ok", "ok", "dup", "missing", "long"]))
        for k in range(n):
            site.append({
                "x": draw(g.integers(-8, 8 * nx + 3)) / 8 + draw(g.sampled([0.03, -0.04, 0.011])),
                "y": draw(g.integers(-8, 8 * ny + 3)) / 8 + draw(g.sampled([0.02, -0.033, 0.007])),
                "z": draw(g.one_of(g.sampled(["absent", None, "nan"]), g.integers(-20, 400),
                                   g.integers(-20, 400), g.integers(-20, 400))),
                "wmo": draw(g.sampled(["absent", None, 0, 3, 3034, 99123])),
                "wrap": draw(g.sampled([0, 0, 0, 360, -360]))})
        return {
            "globe": globe, "grid": grid, "radius": radius, "sites": site, "ids": ids,
            "idbase": draw(g.sampled([1, 350000, 99999990])),
            "land": draw(g.fixed(nx * ny, g.sampled([0, 1]))) if draw(g.integers(0, 3)) else
            draw(g.fixed(nx * ny, g.sampled([0, 0, 0, 0, 0, 0, 1]))),
            "oro": draw(g.fixed(nx * ny, g.integers(0, 8).map(lambda v: v * 50)))
            if draw(g.booleans()) else draw(g.fixed(nx * ny, g.integers(-5, 400))),
            "constraint": draw(g.booleans()), "dz": draw(g.booleans()),
            "nodes": draw(g.sampled([2, 3, 5, 36, 36])), "xy": draw(g.booleans()),
            "system": draw(g.sampled(["lonlat", "lonlat", "projected", "names"])),
            "maskedland": draw(g.integers(0, 5)) == 0,
        }

    return case()


def coords(case):
    from iris.coords import DimCoord
    from vp import cubes as c

    gr = case["grid"]
    if not case["globe"]:
        return c.yx_coords(dict(gr, kind="laea", bounds=True))
    out = []
    for name, k in (("latitude", "y"), ("longitude", "x")):
        p = (gr[k + "0"] + gr["d" + k] * np.arange(gr["n" + k])).astype(np.float32)
        h = np.float32(gr["d" + k] / 2)
        out.append(DimCoord(p, standard_name=name, units="degrees", coord_system=c.GLOBAL,
                            bounds=np.stack([p - h, p + h], 1), circular=(k == "x")))
    return out


def run_select(case):
    import cartopy.crs as ccrs
    from improver.spotdata.neighbour_finding import NeighbourSelection
    from improver.metadata.utilities import check_grid_match
    from vp import cubes as c

    gr, globe = case["grid"], case["globe"]
    ny, nx = gr["ny"], gr["nx"]
    yx = coords(case)
    oro = np.array(case["oro"], np.float32).reshape(ny, nx)
    land = np.array(case["land"], np.int8).reshape(ny, nx)
    ys, xs = yx[0].points.astype(float), yx[1].points.astype(float)
    lm = np.ma.MaskedArray(land, mask=np.zeros(land.shape, bool)) if case["maskedland"] else land
    ocube = c.new_cube(oro, "surface_altitude", "m", yx)
    lcube = c.new_cube(lm, "land_binary_mask", "1", yx)
    if case["xy"]:
        ocube.transpose([1, 0])
        lcube.transpose([1, 0])

    # where the sites are
    sx = np.array([gr["x0"] + s["x"] * gr["dx"] for s in case["sites"]], float)
    sy = np.array([gr["y0"] + s["y"] * gr["dy"] for s in case["sites"]], float)
    laea = c.LAEA.as_cartopy_crs()
    system, kx, ky = {}, "longitude", "latitude"
    if globe:
        lon, lat = (sx + 180) % 360 - 180, sy
        lat = np.clip(lat, -90, 90)
        gx, gy = lon + np.array([s["wrap"] for s in case["sites"]]), lat
        sx, sy = lon, lat
    else:
        p = ccrs.PlateCarree().transform_points(laea, sx, sy)
        lon, lat = p[:, 0], p[:, 1]
        gx, gy = (lon, lat)
        if case["system"] == "projected":
            gx, gy = sx, sy
            system["site_coordinate_system"] = laea
    if case["system"] != "lonlat":
        kx, ky = "easting", "northing"
        system.update(site_x_coordinate=kx, site_y_coordinate=ky)
    sites = []
    for k, s in enumerate(case["sites"]):
        d = {kx: float(gx[k]), ky: float(gy[k])}
        if s["z"] != "absent":
            d["altitude"] = np.nan if s["z"] == "nan" else s["z"]
        if s["wmo"] != "absent":
            d["wmo_id"] = s["wmo"]
        d["site_id"] = case["idbase"] + k
        sites.append(d)
    if case["ids"] == "dup":
        sites[-1]["site_id"] = sites[0]["site_id"]
    elif case["ids"] == "missing":
        del sites[-1]["site_id"]
    elif case["ids"] == "long":
        sites[-1]["site_id"] = 100000000 + len(sites)
    given = [dict(d) for d in sites]

    # which are inside the domain
    half = [gr["dx"] / 2, gr["dy"] / 2]
    inside = (sy >= ys.min() - half[1]) & (sy <= ys.max() + half[1])
    rim = np.minimum(abs(sy - ys.min() + half[1]), abs(sy - ys.max() - half[1])) / gr["dy"]
    if not globe:
        inside &= (sx >= xs.min() - half[0]) & (sx <= xs.max() + half[0])
        rim = np.minimum(rim, np.minimum(abs(sx - xs.min() + half[0]),
                                         abs(sx - xs.max() - half[0])) / gr["dx"])
    if (rim[abs(sy) != 90] < 1e-3).any() if globe else (rim < 1e-3).any():
        o.reject()
    keep = np.nonzero(inside)[0]
    if not len(keep):
        o.reject()

    def distances(k):
        if not globe:
            return np.hypot(ys[:, None] - sy[k], xs[None, :] - sx[k])
        def xyz(la, lo):
            la, lo = np.radians(la), np.radians(lo)
            return 6371229.0 * np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo),
                                         np.sin(la) + 0 * lo], -1)
        return np.sqrt(((xyz(ys[:, None], xs[None, :]) - xyz(sy[k], sx[k])) ** 2).sum(-1))

    def closest(points, v, period=None):
        d = abs(points - v)
        if period:
            d = abs((points - v + period / 2) % period - period / 2)
        a = np.sort(d)
        if len(a) > 1 and a[1] - a[0] < 1e-3 * abs(points[1] - points[0]):
            o.reject("half way")
        return int(np.argmin(d))

    unit = 1.0 if not globe else 100.0
    want, alts, warn_nodes, far = [], [], False, 0
    for k in keep:
        pick = (closest(ys, sy[k]), closest(xs, sx[k], 360 if globe else None))
        z = case["sites"][k]["z"]
        alt = float(oro[pick]) if z in ("absent", None, "nan") else float(z)
        dist = distances(k)
        order = sorted((dist[p], p) for p in np.ndindex(ny, nx)
                       if land[p] or not case["constraint"])
        near = [(d, p) for d, p in order if d < case["radius"]]
        if any(abs(d - case["radius"]) < unit for d, _ in order):
            o.reject("on the radius")
        if case["dz"]:
            lim = case["nodes"]
            if len(near) > lim and near[lim][0] - near[lim - 1][0] < unit:
                o.reject("tie at the limit")
            warn_nodes |= len(near) >= lim
            near = near[:lim]
            if near:
                best = min(abs(float(oro[p]) - alt) for _, p in near)
                same = [(d, p) for d, p in near if abs(float(oro[p]) - alt) == best]
                if len(same) > 1 and same[1][0] - same[0][0] < unit:
                    o.reject("tie")
                pick = same[0][1]
            else:
                far += 1
        elif case["constraint"]:
            if near:
                if len(near) > 1 and near[1][0] - near[0][0] < unit:
                    o.reject("tie")
                pick = near[0][1]
            else:
                far += 1
        want.append(pick)
        alts.append(alt)

    plugin = NeighbourSelection(
        land_constraint=case["constraint"], minimum_dz=case["dz"], search_radius=case["radius"],
        node_limit=case["nodes"], unique_site_id_key=None if case["ids"] == "none" else "site_id",
        **system)
    kept = [given[k] for k in keep]
    ids = [d.get("site_id") for d in kept]
    if case["ids"] != "none" and (None in ids or len(set(ids)) < len(ids) or max(ids) > 99999999):
        o.raises((KeyError, ValueError), plugin, sites, ocube, lcube)
        o.label("refused")
        return True
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        res = plugin(sites, ocube, lcube)
    said = " ".join(str(w.message) for w in caught)
    o.equal("fall outside the grid domain" in said, len(keep) < len(sites), "warning of lost sites")
    o.equal("Limit on number of nearest neighbours" in said, bool(warn_nodes),
            "warning of the limit")
    o.equal(str(sites), str(given), "site list")

    n = len(keep)
    o.equal(res.shape, (1, 3, n), "shape")
    o.equal(res.dtype, np.float32, "type")
    o.equal(res.name(), "grid_neighbours", "name")
    for j, (pick, alt) in enumerate(zip(want, alts)):
        d = res.data[0, :, j]
        o.check((d[1], d[0]) == pick, "site %s: (y, x) = %s, expected %s", given[keep[j]],
                (d[1], d[0]), pick)
        o.close(d[2], alt - float(oro[pick]), "vertical displacement", atol=1e-3)
    method = "nearest" + ("_land" if case["constraint"] else "") + (
        "_minimum_dz" if case["dz"] else "")
    o.equal(list(res.coord("neighbour_selection_method_name").points), [method], "method")
    o.equal(list(res.coord("grid_attributes_key").points),
            ["x_index", "y_index", "vertical_displacement"], "attributes")
    o.close(res.coord("altitude").points, alts, "altitudes", atol=1e-4)
    glon, glat = np.array([gx, gy] if globe else [lon, lat])[:, keep]
    o.close(res.coord("latitude").points, glat, "latitudes", atol=1e-4)
    o.close(res.coord("longitude").points, glon, "longitudes", atol=1e-4)
    o.equal(list(res.coord("spot_index").points), list(range(n)), "spot index")
    o.equal(list(res.coord("wmo_id").points),
            ["%05d" % d["wmo_id"] if d.get("wmo_id") else "None" for d in kept], "WMO ids")
    if case["ids"] == "none":
        o.equal(len(res.coords("site_id")), 0, "unique ids")
    else:
        o.equal(list(res.coord("site_id").points), ["%08d" % d["site_id"] for d in kept],
                "unique ids")
    for name in ("altitude", "latitude", "longitude", "wmo_id"):
        o.equal(res.coord_dims(name), (2,), "dimension of " + name)
    # the result belongs to this grid and no other
    like = c.new_cube(oro, "air_temperature", "K", yx)
    check_grid_match([res, like])
    moved = [yx[0], yx[1].copy(points=yx[1].points + np.float32(gr["dx"]),
                               bounds=yx[1].bounds + np.float32(gr["dx"]))]
    o.raises(ValueError, check_grid_match, [res, c.new_cube(oro, "air_temperature", "K", moved)])
    o.label(method, "globe" if globe else "regional", far and "no match within the radius",
            len(keep) < len(sites) and "site outside", len(set(case["land"])) < 2 and "one surface")
    return n > 1 and len(set(case["land"])) > 1 and len(set(case["oro"])) > 1


SUBS = {"select": Sub(gen_select, run_select, 1)}
