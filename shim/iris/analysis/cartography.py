"""Stand-in for the parts of iris.analysis.cartography that IMPROVER uses."""
import numpy as np

from .._unsupported import ShimUnsupported

DEFAULT_SPHERICAL_EARTH_RADIUS = 6367470


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimUnsupported("iris.analysis.cartography." + name)


def wrap_lons(lons, base, period):
    lons = lons.astype(np.float64)
    return ((lons - base + period * 2) % period) + base


def cosine_latitude_weights(cube):
    coord = [c for c in cube.coords() if "latitude" in c.name()][0]
    lat = coord.copy()
    lat.convert_units("radians")
    weights = np.cos(lat.points)
    shape = [1] * cube.ndim
    for d, n in zip(cube.coord_dims(coord), weights.shape):
        shape[d] = n
    return np.broadcast_to(weights.reshape(shape), cube.shape)


def _to_latlon(crs, x, y):
    import cartopy.crs as ccrs

    pts = ccrs.Geodetic().transform_points(crs, x, y)
    return pts[..., 0], pts[..., 1]


def _tangent(crs, x, y):
    """Physical (east, north) metres-per-unit displacement vectors of the CRS axes."""
    geodetic = _is_degrees(crs)
    h = 1e-3 if geodetic else 50.0

    def partial(dx, dy):
        lon1, lat1 = _to_latlon(crs, x - dx, y - dy)
        lon2, lat2 = _to_latlon(crs, x + dx, y + dy)
        dlon = (lon2 - lon1 + 180) % 360 - 180
        lat = np.radians((lat1 + lat2) / 2)
        radius = 6371229.0
        return (np.radians(dlon) * np.cos(lat) * radius / (2 * h),
                np.radians(lat2 - lat1) * radius / (2 * h))

    return partial(h, 0), partial(0, h)


def _is_degrees(crs):
    import cartopy.crs as ccrs

    return isinstance(crs, (ccrs.PlateCarree, ccrs.RotatedGeodetic, ccrs.Geodetic))


def rotate_winds(u_cube, v_cube, target_cs):
    if u_cube.shape != v_cube.shape:
        raise ValueError("Expected u and v cubes to have the same shape. "
                         "u {}, v {}".format(u_cube.shape, v_cube.shape))

    def xy(cube):
        x = [c for c in cube.coords(axis="X", dim_coords=True)]
        y = [c for c in cube.coords(axis="Y", dim_coords=True)]
        if not x or not y:
            x = cube.coords(axis="X")
            y = cube.coords(axis="Y")
        return x[0], y[0]

    ux, uy = xy(u_cube)
    vx, vy = xy(v_cube)
    if not (ux == vx and uy == vy):
        raise ValueError("u and v cubes do not share the same x and y coordinates")
    src_cs = ux.coord_system
    if src_cs is None:
        raise ValueError("no coordinate system")
    src = src_cs.as_cartopy_projection()
    tgt = target_cs.as_cartopy_projection()
    xd, yd = u_cube.coord_dims(ux), u_cube.coord_dims(uy)
    if ux.ndim == 1 and xd != yd:
        dims = (yd[0], xd[0]) if xd and yd else (yd or xd)
        x2, y2 = np.meshgrid(ux.points.astype(float), uy.points.astype(float))
        if not (xd and yd):
            x2, y2 = x2.ravel(), y2.ravel()
    else:
        x2, y2, dims = ux.points.astype(float), uy.points.astype(float), xd
    t = tgt.transform_points(src, x2, y2)
    xt, yt = t[..., 0], t[..., 1]
    # distances are measured on a sphere, with the two axes of each system taken as
    # orthogonal, as iris does
    ds1x, ds1y = [np.hypot(*v) for v in _tangent(src, x2, y2)]
    ds2x, ds2y = [np.hypot(*v) for v in _tangent(tgt, xt, yt)]
    h = 1e-3 if _is_degrees(src) else 50.0

    def jac(dx, dy):
        p = tgt.transform_points(src, x2 + dx, y2 + dy)
        m = tgt.transform_points(src, x2 - dx, y2 - dy)
        d = (p - m) / (2 * h)
        if _is_degrees(tgt):
            d[..., 0] = ((p - m)[..., 0] + 180) % 360 - 180
            d[..., 0] /= 2 * h
        return d[..., 0], d[..., 1]

    (j_xx, j_yx), (j_xy, j_yy) = jac(h, 0), jac(0, h)
    transpose = len(dims) == 2 and dims[0] > dims[1]

    def shaped(a):
        if transpose:
            a = a.T
        shape = [1] * u_cube.ndim
        for d, n in zip(sorted(dims), a.shape):
            shape[d] = n
        return a.reshape(shape)

    u, v = u_cube.data, v_cube.data
    u1, v1 = u / shaped(ds1x), v / shaped(ds1y)
    ut = (u1 * shaped(j_xx) + v1 * shaped(j_xy)) * shaped(ds2x)
    vt = (u1 * shaped(j_yx) + v1 * shaped(j_yy)) * shaped(ds2y)
    mag = np.ma.sqrt(u ** 2 + v ** 2) if np.ma.isMaskedArray(u) else np.hypot(u, v)
    new_mag = np.ma.sqrt(ut ** 2 + vt ** 2) if np.ma.isMaskedArray(u) else np.hypot(ut, vt)
    with np.errstate(divide="ignore", invalid="ignore"):
        scale = np.where(new_mag > 0, mag / np.where(new_mag > 0, new_mag, 1), 1.0)
    ut_cube = u_cube.copy(data=np.ma.array(ut * scale))
    vt_cube = v_cube.copy(data=np.ma.array(vt * scale))
    from ..coords import AuxCoord

    for cube, name in ((ut_cube, None), (vt_cube, None)):
        cs_x, cs_y = cube.coord(ux), cube.coord(uy)
        cxd, cyd = cube.coord_dims(cs_x), cube.coord_dims(cs_y)
        _ = (name, cs_x, cs_y)
        names = ("projection_x_coordinate", "projection_y_coordinate")
        units = "m"
        if type(target_cs).__name__ == "GeogCS":
            names, units = ("longitude", "latitude"), "degrees"
        elif type(target_cs).__name__ == "RotatedGeogCS":
            names, units = ("grid_longitude", "grid_latitude"), "degrees"
        if cxd and cyd and cxd != cyd:
            pts = (xt, yt) if not transpose else (xt.T, yt.T)
            for nm, p in zip(names, pts):
                c = AuxCoord(p, standard_name=nm, units=units, coord_system=target_cs)
                cube.add_aux_coord(c, tuple(sorted(dims)))
    for cube, nm in ((ut_cube, "transformed_x_wind"), (vt_cube, "transformed_y_wind")):
        cube.rename(nm)
    return ut_cube, vt_cube
