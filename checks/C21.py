"""C21: regridding, with and without land-sea masks."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: latitude-longitude sources (leading dimensions, masks, NaN, descending axes) and "
        "latitude-longitude or equal-area targets in, across and outside the source domain, "
        "land masks with coasts, lakes and islands, vicinities, metadata; non-trivial when the target "
        "lies (partly) within the source and the data are not constant")
QUICK = 2400
THOROUGH = 40000


def gen_two():
    from vp import gens as g

    @g.composite
    def case(draw):
        laea = draw(g.integers(0, 2)) == 0
        step = draw(g.sampled([0.25, 0.5])) if laea else draw(g.sampled([0.25, 1, 2]))
        ny, nx = draw(g.integers(4, 7)), draw(g.integers(4, 7))
        if laea:
            lat0, lon0 = 54.9 - step * ny / 2 // 0.25 * 0.25, -2.5 - step * nx / 2 // 0.25 * 0.25
            lat0, lon0 = round(lat0 * 4) / 4, round(lon0 * 4) / 4
            ty, tx = draw(g.integers(2, 5)), draw(g.integers(2, 5))
            target = {"kind": "laea", "ny": ty, "nx": tx,
                      "dy": draw(g.sampled([10000, 24000, 40000])),
                      "dx": draw(g.sampled([10000, 24000])),
                      "y0": draw(g.integers(-60, 20)) * 1000,
                      "x0": draw(g.integers(-60, 20)) * 1000}
        else:
            lat0, lon0 = draw(g.integers(-50, 45)), draw(g.sampled([-170, -20, -3, 0, 10, 150]))
            dy = step * draw(g.sampled([0.25, 0.5, 1, 0.375, 0.8125]))
            dx = step * draw(g.sampled([0.25, 0.5, 1, 0.375, 0.8125]))
            ty, tx = draw(g.integers(2, 6)), draw(g.integers(2, 6))
            where = draw(g.sampled(["in", "in", "in", "any", "end"]))
            if where == "any":
                a = draw(g.integers(-16, 16 * ny)) / 16 * step
                b = draw(g.integers(-16, 16 * nx)) / 16 * step
            elif where == "end":                  # ends on the last row / column
                a = (ny - 1) * step - (ty - 1) * dy
                b = (nx - 1) * step - (tx - 1) * dx
                short = draw(g.sampled([0, 0, 3e-4, 4e-4]))    # or just before it
                a, b = a - short, b - short
            else:
                a = draw(g.integers(0, max(0, int(16 * ((ny - 1) - (ty - 1) * dy / step))))) / 16 * step
                b = draw(g.integers(0, max(0, int(16 * ((nx - 1) - (tx - 1) * dx / step))))) / 16 * step
            target = {"kind": "latlon", "ny": ty, "nx": tx, "dy": dy, "dx": dx,
                      "y0": lat0 + a, "x0": lon0 + b, "ydesc": draw(g.integers(0, 3)) == 0}
        source = {"kind": "latlon", "ny": ny, "nx": nx, "dy": step, "dx": step, "y0": lat0,
                  "x0": lon0, "ydesc": draw(g.integers(0, 4)) == 0,
                  "xdesc": draw(g.integers(0, 8)) == 0}
        lead = draw(g.sampled(["none", "none", "realization", "percentile", "threshold", "two"]))
        k = 0 if lead == "none" else draw(g.integers(1, 2))
        shape = ([k] if k else []) + ([2] if lead == "two" else []) + [ny, nx]
        land = g.fixed(ny * nx, g.sampled([0, 1])) if draw(g.booleans()) else g.fixed(
            ny * nx, g.sampled([0, 0, 0, 0, 0, 1]))
        return {
            "source": source, "target": target, "lead": lead, "k": k,
            "mode": draw(g.sampled(["nearest-2", "bilinear-2", "nearest-with-mask-2",
                                    "nearest-with-mask-2", "bilinear-with-mask-2",
                                    "bilinear-with-mask-2", "bilinear-with-mask-2"])),
            "data": draw(g.masked_field(shape, g.grid_ints(-40, 40, 0.5))),
            "seamask": draw(g.sampled([None, None, None, 0, 1])),
            "nan": draw(g.integers(0, 8)) == 0,
            "land": draw(land), "swap": draw(g.booleans()),
            "tland": draw(g.fixed(ty * tx, g.sampled([0, 1]))),
            "pad": draw(g.sampled([0, 0, 1, 2])),
            "radius": draw(g.sampled([25000, 60000, 150000, 2.5e8])),
            "grid_attrs": draw(g.sampled(["none", "source", "both"])),
            "title": draw(g.sampled([None, "UK title"])),
            "method": draw(g.booleans()), "times": draw(g.times()),
        }

    return case()


def ecef(lat, lon):
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    la, lo = np.radians(lat), np.radians(lon)
    n = a / np.sqrt(1 - e2 * np.sin(la) ** 2)
    return np.stack([n * np.cos(la) * np.cos(lo), n * np.cos(la) * np.sin(lo),
                     n * (1 - e2) * np.sin(la)], -1)


def candidates(lat, lon, lats, lons, step, land, type_, radius, mode, inside):
    """[(weights by source index)]: a list of acceptable {(j, i): weight}; None: not judged."""
    ny, nx = len(lats), len(lons)
    j = min(int(np.floor((lat - lats[0]) / step)), ny - 2)
    i = min(int(np.floor((lon - lons[0]) / step)), nx - 2)
    fy, fx = (lat - lats[j]) / step, (lon - lons[i]) / step
    corners = [(j, i), (j + 1, i), (j + 1, i + 1), (j, i + 1)]
    near_edge = min(abs(fy - round(fy)), abs(fx - round(fx)))
    if 0 < near_edge < 1e-4:
        return None
    masked = "mask" in mode
    bil = {corners[0]: (1 - fy) * (1 - fx), corners[1]: fy * (1 - fx), corners[2]: fy * fx,
           corners[3]: (1 - fy) * fx}
    same = [c for c in corners if not masked or land[c] == type_]
    pts = ecef(*np.meshgrid(lats, lons, indexing="ij"))
    dist = np.sqrt(((pts - ecef(lat, lon)) ** 2).sum(-1))
    order = sorted((dist[c], c) for c in np.ndindex(ny, nx))
    full = order
    order = [x for x in order if inside[x[1]]]

    def first(k):
        if len(order) < k or order[:k] != full[:k]:
            return None
        if len(order) > k and order[k][0] - order[k - 1][0] < 1e-3 + 1e-6 * order[k][0]:
            return None
        return order[:k]

    def far():
        """The (at most) four nearest of the same type among eight within the radius."""
        eight = first(8)
        if eight is None or any(abs(d - radius) < 1 for d, _ in eight):
            return None
        return [(d, c) for d, c in eight if d <= radius and land[c] == type_]

    def idw(items):
        w = np.array([(1 / (d + 1.2e-7)) ** 1.8 for d, _ in items])
        return [{c: x for (_, c), x in zip(items, w / w.sum())}]

    if mode.startswith("nearest"):
        def best(items):
            m = min(d for d, _ in items)
            return [{c: 1.0} for d, c in items if d <= m * (1 + 1e-4) + 0.05 * (m > 1)]
        if len(same) == 4:
            deg = [((lat - lats[c[0]]) ** 2 + (lon - lons[c[1]]) ** 2, c) for c in corners]
            m = min(d for d, _ in deg)
            return [{c: 1.0} for d, c in deg if d <= m + 1e-5 * step ** 2]
        four = first(4)
        if four is None:
            return None
        match = [(d, c) for d, c in four if land[c] == type_]
        if match:
            o.label("near4")
            return best(match)
        match = far()
        if match is None:
            return None
        o.label("near8" if match else "ignored")
        return best(match or four)
    if len(same) == 4:
        return [bil]
    if len(same) == 3:
        k = [n for n in range(4) if corners[n] not in same][0]
        w = [{corners[1]: 1 - fx, corners[3]: 1 - fy},
             {corners[0]: 1 - fx, corners[2]: fy},
             {corners[1]: fy, corners[3]: fx},
             {corners[2]: fx, corners[0]: 1 - fy}][k]
        other = corners[(k + 2) % 4]
        w[other] = 1 - sum(w.values())
        low = min(w.values())
        if 0 < abs(low) < 1e-5:
            return None
        if low >= 0:
            o.label("triangle")
            return [w]
    if same:
        four = first(4)
        if four is None:
            return None
        match = [(d, c) for d, c in four if land[c] == type_]
        if match:
            o.label("idw")
            return idw(match)
    match = far()
    if match is None:
        return None
    if match:
        o.label("idw8")
        if len(match) > 4 and match[4][0] - match[3][0] < 1e-3:
            return None
        return idw(match[:4])
    o.label("ignored")
    return [bil]


def run_two(case):
    from improver.regrid.landsea import RegridLandSea
    from improver.utilities.spatial import transform_grid_to_lat_lon
    from iris.coords import CellMethod
    from vp import cubes as c

    gs, gt = case["source"], case["target"]
    ny, nx = gs["ny"], gs["nx"]
    k, lead = case["k"], case["lead"]
    land = np.array(case["land"], np.int8).reshape(ny, nx)
    if case["swap"]:
        land = (1 - land).astype(np.int8)
    tland = np.array(case["tland"], np.int8).reshape(gt["ny"], gt["nx"])
    data = c.array(case["data"])
    use_mask = "mask" in case["mode"]
    if case["seamask"] is not None:         # data exist on one surface only
        m = np.ma.getmaskarray(data) | np.broadcast_to(land == case["seamask"], data.shape)
        data = np.ma.MaskedArray(np.ma.getdata(data), mask=m)
    elif case["nan"]:
        data = np.ma.filled(data, np.nan) if np.ma.isMaskedArray(data) else data
    dims = []
    if k:
        dims = {"realization": [c.realization_coord(range(k))],
                "percentile": [c.percentile_coord([25, 50][:k])],
                "threshold": [c.threshold_coord([1.0, 2.0][:k], "lwe_thickness_of_precipitation_amount", "m")],
                "two": [c.percentile_coord([25, 50][:k]), c.realization_coord([0, 1])]}[lead]
    attrs = dict(c.ATTRS)
    if case["grid_attrs"] != "none":
        attrs.update(mosg__grid_type="standard", mosg__grid_version="1.3.0")
    method = (CellMethod("maximum", coords="time"),) if case["method"] else None
    cube = c.new_cube(data, "air_temperature", "K", dims + c.yx_coords(gs),
                      c.time_coords(case["times"]), attrs, method)
    # the land mask may cover more than the data do
    pad = case["pad"]
    gm = dict(gs, ny=ny + 2 * pad, nx=nx + 2 * pad, y0=gs["y0"] - pad * gs["dy"],
              x0=gs["x0"] - pad * gs["dx"])
    big = np.zeros((gm["ny"], gm["nx"]), np.int8)
    big[pad:pad + ny, pad:pad + nx] = land
    lm = c.new_cube(big, "land_binary_mask", "1", c.yx_coords(gm))
    tattrs = {"mosg__grid_type": "extended", "title": "T"} if case["grid_attrs"] == "both" else {}
    target = c.new_cube(tland, "land_binary_mask", "1", c.yx_coords(gt), attributes=tattrs)

    lats = cube.coord("latitude").points.astype(float)
    lons = cube.coord("longitude").points.astype(float)
    src = np.ma.getdata(data).astype(float)
    gone = np.ma.getmaskarray(data)
    sland = land
    if lats[0] > lats[-1]:
        lats, src, gone, sland = lats[::-1], src[..., ::-1, :], gone[..., ::-1, :], sland[::-1]
    if lons[0] > lons[-1]:
        lons, src, gone, sland = lons[::-1], src[..., ::-1], gone[..., ::-1], sland[:, ::-1]
    if gt["kind"] == "laea":
        tlat, tlon = transform_grid_to_lat_lon(target)
    else:
        tlat, tlon = np.meshgrid(target.coord("latitude").points,
                                 target.coord("longitude").points, indexing="ij")
    tlat, tlon = tlat.astype(float), tlon.astype(float)
    step = gs["dy"]
    inside = ((lats > tlat.min() - 2 * step) & (lats < tlat.max() + 2 * step))[:, None] & (
        (lons > tlon.min() - 2 * step) & (lons < tlon.max() + 2 * step))[None, :]
    if inside.any(1).sum() < 3 or inside.any(0).sum() < 3 or inside.sum() < 9:
        o.reject()
    keep = [o.snapshot(x) for x in (cube, lm, target)]
    args = {"landmask": lm, "landmask_vicinity": case["radius"]} if use_mask else {}
    res = RegridLandSea(case["mode"], **args)(cube, target, regridded_title=case["title"])
    for before, x in zip(keep, (cube, lm, target)):
        o.unchanged(before, x)

    got = res.data
    o.equal(got.shape, src.shape[:-2] + tlat.shape, "shape")
    gd, gmask = np.ma.getdata(got).astype(float), np.ma.getmaskarray(got)
    some = False
    for t in np.ndindex(*tlat.shape):
        la, lo = tlat[t], tlon[t]
        edge = min(abs(la - lats[0]), abs(la - lats[-1]), abs(lo - lons[0]), abs(lo - lons[-1]))
        if 0 < edge < 1e-4:
            continue
        here = "at (%s, %s)" % (la, lo)
        g_, m_ = gd[(Ellipsis,) + t], gmask[(Ellipsis,) + t]
        if not (lats[0] <= la <= lats[-1] and lons[0] <= lo <= lons[-1]):
            o.label("outside")
            if np.ma.isMaskedArray(data):
                o.check(m_.all(), "the point %s outside the source is not masked", here)
            else:
                o.check(np.isnan(g_).all() and not m_.any(),
                        "the point %s outside the source is %s", here, o.show(g_))
            continue
        ways = candidates(la, lo, lats, lons, step, sland, tland[t], case["radius"],
                          case["mode"], inside)
        if ways is None:
            o.label("undecided point")
            continue
        some = True
        fits = []
        for w in ways + [{u: x for u, x in w.items() if abs(x) > 1e-6} for w in ways]:
            val = np.zeros(src.shape[:-2])
            bad = np.zeros(src.shape[:-2], bool)
            for (j, i), x in w.items():
                if x == 0 or (abs(x) < 1e-12 and case["mode"] == "bilinear-2"):
                    continue
                bad |= gone[..., j, i]
                val = val + x * np.where(gone[..., j, i], 0, src[..., j, i])
            if not np.ma.isMaskedArray(data):
                bad = np.isnan(val)
                same = (np.isnan(g_) == bad) & ~m_
            elif case["mode"].startswith("bil"):
                same = m_ == (bad | np.isnan(val))
            else:
                same = m_ == bad
            with np.errstate(invalid="ignore"):
                same = same & (bad | m_ | (np.abs(g_ - val) < 2e-3))
            fits.append(bool(same.all()))
            last = (val, bad)
        o.check(any(fits), "%s %s: got %s mask %s, expected %s mask %s (weights %s, type %s)",
                case["mode"], here, o.show(g_), o.show(m_), o.show(last[0]), o.show(last[1]),
                ways, tland[t])
    o.equal(res.dtype, np.float32, "type")
    o.equal(res.name(), "air_temperature", "name")
    o.equal(str(res.units), "K", "units")
    o.equal(res.cell_methods, cube.cell_methods, "cell methods")
    for i, d in enumerate(dims):
        o.equal(res.coord_dims(d.name()), (i,), "dimension of " + d.name())
        o.same_coord(res.coord(d.name()), d)
        o.equal(res.coord(d.name()).attributes, d.attributes, "attributes of the coordinate")
    for d in c.time_coords(case["times"]):
        o.same_coord(res.coord(d.name()), d)
    for a in "yx":
        o.same_coord(res.coord(axis=a), target.coord(axis=a))
        o.equal(res.coord(axis=a).coord_system, target.coord(axis=a).coord_system, "system")
    want = dict(c.ATTRS)
    if case["grid_attrs"] == "both":
        want["mosg__grid_type"] = "extended"
    want["title"] = ("unknown" if case["title"] is None else "Post-Processed UK title")
    o.equal(dict(res.attributes), want, "attributes")
    o.label(case["mode"], gt["kind"], lead)
    return some and len(set(np.ravel(src))) > 1


# ---------------------------------------------------------------- older modes
def gen_old():
    from vp import gens as g

    @g.composite
    def case(draw):
        ny, nx = draw(g.integers(2, 6)), draw(g.integers(2, 6))
        d = draw(g.sampled([1000, 1000, 1500]))
        ty, tx = draw(g.integers(2, 7)), draw(g.integers(2, 7))
        # target points well inside the source domain and never half way between points
        y0 = draw(g.sampled([100, 300, 600, 800]))
        x0 = draw(g.sampled([100, 300, 600, 800]))
        k = draw(g.sampled([0, 0, 1, 2, 3]))
        return {"ny": ny, "nx": nx, "ty": ty, "tx": tx, "y0": y0, "x0": x0, "d": d, "k": k,
                "data": draw(g.masked_field(([k] if k else []) + [ny, nx],
                                            g.grid_ints(-40, 40, 0.5))),
                "land": draw(g.fixed(ny * nx, g.sampled([0, 1]))),
                "tland": draw(g.fixed(ty * tx, g.sampled([0, 1]))),
                "radius": draw(g.sampled([1500, 1500, 2000, 3000, 4500, 25000])),
                "mode": draw(g.sampled(["nearest-with-mask", "nearest-with-mask",
                                        "nearest-with-mask", "nearest", "bilinear"])),
                "attrs": draw(g.booleans()), "title": draw(g.sampled([None, "UK title"])),
                "again": draw(g.booleans()), "times": draw(g.times())}

    return case()


def run_old(case):
    from improver.regrid.landsea import RegridLandSea
    from vp import cubes as c

    ny, nx, ty, tx, d = case["ny"], case["nx"], case["ty"], case["tx"], case["d"]
    sy = np.arange(ny) * 2000.0
    sx = np.arange(nx) * 2000.0
    py = case["y0"] + d * np.arange(ty)
    px = case["x0"] + d * np.arange(tx)
    if py[-1] > sy[-1] or px[-1] > sx[-1]:
        ok_y, ok_x = (py <= sy[-1]).sum(), (px <= sx[-1]).sum()
        if ok_y < 2 or ok_x < 2:
            o.reject()
        tl = np.array(case["tland"], np.int8).reshape(ty, tx)[:ok_y, :ok_x]
        py, px = py[:ok_y], px[:ok_x]
        ty, tx = ok_y, ok_x
    else:
        tl = np.array(case["tland"], np.int8).reshape(ty, tx)

    def index(p):
        f = p / 2000.0
        if (np.abs(f - np.floor(f) - 0.5) < 1e-6).any():
            o.reject()
        return np.round(f).astype(int)

    gs = {"kind": "laea", "ny": ny, "nx": nx, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}
    gt = {"kind": "laea", "ny": ty, "nx": tx, "dy": d, "dx": d, "y0": case["y0"],
          "x0": case["x0"]}
    data = c.array(case["data"])
    land = np.array(case["land"], np.int8).reshape(ny, nx)
    k = case["k"]
    attrs = dict(c.ATTRS)
    if case["attrs"]:
        attrs["mosg__grid_version"] = "1.3.0"
    cube = c.new_cube(data, "air_temperature", "K",
                      ([c.realization_coord(range(k))] if k else []) + c.yx_coords(gs),
                      c.time_coords(case["times"]), attrs)
    lm = c.new_cube(land, "land_binary_mask", "1", c.yx_coords(gs))
    target = c.new_cube(tl, "land_binary_mask", "1", c.yx_coords(gt),
                        attributes={"mosg__grid_version": "2.0"})
    keep = [o.snapshot(x) for x in (cube, lm, target)]
    mode = case["mode"]
    args = {} if "mask" not in mode else {"landmask": lm, "landmask_vicinity": case["radius"]}
    if not args:
        o.raises(ValueError, RegridLandSea, "nearest-with-mask")
    plugin = RegridLandSea(mode, **args)
    if case["again"]:                     # a plugin may be used again
        other = target.copy(1 - tl)
        plugin(cube, other)
    res = plugin(cube, target, regridded_title=case["title"])
    for before, x in zip(keep, (cube, lm, target)):
        o.unchanged(before, x)
    jy, ix = index(py), index(px)
    src = np.ma.getdata(data).astype(float)
    gone = np.ma.getmaskarray(data)
    got = res.data
    if k == 1 and got.ndim == 2:
        got = np.ma.expand_dims(got, 0) if np.ma.isMaskedArray(got) else got[None]
    changed = False
    if mode == "bilinear":
        if np.ma.isMaskedArray(data):
            o.reject()
        iy, fy = np.floor(py / 2000).astype(int), py / 2000 % 1
        jx, fx = np.floor(px / 2000).astype(int), px / 2000 % 1
        iy2, jx2 = np.minimum(iy + 1, ny - 1), np.minimum(jx + 1, nx - 1)
        a = src[..., iy, :] * (1 - fy)[:, None] + src[..., iy2, :] * fy[:, None]
        want = a[..., jx] * (1 - fx) + a[..., jx2] * fx
        o.close(got, want, "bilinear", atol=1e-4)
        changed = True
    else:
        near = src[..., jy, :][..., ix]
        nmask = gone[..., jy, :][..., ix]
        inland = land[jy][:, ix]
        cells = int(case["radius"] / d)
        gd, gm = np.ma.getdata(got).astype(float), np.ma.getmaskarray(got)
        for t in np.ndindex(ty, tx):
            cand = [t]
            if "mask" in mode and inland[t] != tl[t]:
                win = inland[max(0, t[0] - cells):t[0] + cells + 1,
                             max(0, t[1] - cells):t[1] + cells + 1]
                if (win == tl[t]).any():
                    ds = [((t[0] - u[0]) ** 2 + (t[1] - u[1]) ** 2, u)
                          for u in np.ndindex(ty, tx) if inland[u] == tl[t]]
                    low = min(x for x, _ in ds)
                    cand = [u for x, u in ds if x == low]
                    changed = True
                    o.label("replaced")
                else:
                    o.label("kept")
            ok = [np.array_equal(gm[(Ellipsis,) + t], nmask[(Ellipsis,) + u]) and np.array_equal(
                np.where(gm[(Ellipsis,) + t], 0, gd[(Ellipsis,) + t]),
                np.where(nmask[(Ellipsis,) + u], 0, near[(Ellipsis,) + u])) for u in cand]
            o.check(any(ok), "%s at %s: got %s, expected the value of one of %s: %s", mode, t,
                    gd[(Ellipsis,) + t], cand, [near[(Ellipsis,) + u] for u in cand])
        if "mask" not in mode:
            changed = True
    for a in "yx":
        o.same_coord(res.coord(axis=a), target.coord(axis=a))
    want = dict(c.ATTRS)
    if case["attrs"]:
        want["mosg__grid_version"] = "2.0"
    want["title"] = ("unknown" if case["title"] is None else "Post-Processed UK title")
    o.equal(dict(res.attributes), want, "attributes")
    o.equal(res.dtype, np.float32, "type")
    o.label(mode)
    return changed and len(set(np.ravel(src))) > 1


# ---------------------------------------------------------------- cutouts
def gen_cut():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(2, 7))
        a = [draw(g.integers(0, grid["ny"] - 1)), draw(g.integers(0, grid["nx"] - 1))]
        n = [draw(g.integers(1, 7)), draw(g.integers(1, 7))]
        return {"grid": grid, "a": a, "n": n,
                "shift": draw(g.sampled([0, 0, 0, 0, 0.5, -1])),
                "stride": draw(g.sampled([1, 1, 1, 2])),
                "other": draw(g.sampled(["", "", "", "units", "system", "name"])),
                "jitter": draw(g.sampled([0, 0, 1e-7])), "mode": draw(g.sampled(
                    ["nearest-with-mask", "nearest-with-mask-2", "bilinear-with-mask-2"]))}

    return case()


def run_cut(case):
    from improver.regrid.landsea import RegridLandSea, grid_contains_cutout
    from vp import cubes as c

    gr = case["grid"]
    big = c.new_cube(np.zeros((gr["ny"], gr["nx"]), np.float32), "land_binary_mask", "1",
                     c.yx_coords(gr))
    pts, ok = [], True
    for a, start, n, full, d in zip("yx", case["a"], case["n"], (gr["ny"], gr["nx"]),
                                    (gr["dy"], gr["dx"])):
        p = big.coord(axis=a).points.astype(float)
        step = (p[1] - p[0]) if len(p) > 1 else d
        q = p[0] + step * (start + case["stride"] * np.arange(n) + (
            case["shift"] if a == "y" else 0))
        idx = np.round((q - p[0]) / step, 6)
        ok &= bool((idx == np.round(idx)).all() and (idx >= 0).all() and (idx < full).all()
                   and (n == 1 or case["stride"] == 1))
        pts.append((q * (1 + case["jitter"])).astype(np.float32))
    cs = c.yx_coords(dict(gr, ny=len(pts[0]), nx=len(pts[1]), bounds=False))
    small = [x.copy(points=p) for x, p in zip(cs, pts)]
    if case["other"] == "system":
        for x in small:
            x.coord_system = c.LAEA if gr["kind"] == "latlon" else c.GLOBAL
    elif case["other"] == "units":
        if gr["kind"] != "laea":
            o.reject()
        small[1].units = "km"
    elif case["other"] == "name":
        small[0].rename("grid_latitude" if gr["kind"] == "latlon" else "grid_latitude")
        small[0].units = "degrees"
    cut = c.new_cube(np.zeros((len(pts[0]), len(pts[1])), np.float32), "air_temperature", "K", small)
    want = ok and not case["other"]
    o.equal(bool(grid_contains_cutout(big, cut)), want, "is the cutout in the grid")
    if not want:
        o.raises(ValueError, RegridLandSea(case["mode"], landmask=big), cut, big)
    o.label(want)
    return want or (ok and case["other"] != "")


SUBS = {"two": Sub(gen_two, run_two, 6), "old": Sub(gen_old, run_old, 3),
        "cut": Sub(gen_cut, run_cut, 1.5)}
