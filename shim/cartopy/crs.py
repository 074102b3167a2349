"""Stand-in for cartopy.crs on libproj (PROJ 9, called through cffi).

As in cartopy 0.19 with PROJ4-style strings and no datum shift grids, a
transformation preserves latitude and longitude: each projection is evaluated on
its own ellipsoid and no datum transformation is applied.
"""
import ctypes.util
import math

import numpy as np
from cffi import FFI

WGS84_SEMIMAJOR_AXIS = 6378137.0
WGS84_SEMIMINOR_AXIS = 6356752.3142

_ffi = FFI()
_ffi.cdef(
    """
    typedef struct PJconsts PJ;
    typedef struct projCtx_t PJ_CONTEXT;
    PJ_CONTEXT *proj_context_create(void);
    PJ *proj_create(PJ_CONTEXT *ctx, const char *definition);
    size_t proj_trans_generic(PJ *P, int direction,
        double *x, size_t sx, size_t nx, double *y, size_t sy, size_t ny,
        double *z, size_t sz, size_t nz, double *t, size_t st, size_t nt);
    int proj_context_errno(PJ_CONTEXT *ctx);
    int proj_errno_reset(const PJ *P);
    typedef void (*PJ_LOG_FUNCTION)(void *, int, const char *);
    int proj_log_level(PJ_CONTEXT *ctx, int log_level);
    """
)
_lib = _ffi.dlopen(ctypes.util.find_library("proj") or "libproj.so.25")
_ctx = _lib.proj_context_create()
_lib.proj_log_level(_ctx, 0)
_PJ = {}


def _pj(definition):
    if definition not in _PJ:
        pj = _lib.proj_create(_ctx, definition.encode())
        if pj == _ffi.NULL:
            raise ValueError("invalid projection: " + definition)
        _PJ[definition] = pj
    return _PJ[definition]


def _trans(definition, direction, x, y, z):
    x = np.array(x, dtype=np.float64).ravel()
    y = np.array(y, dtype=np.float64).ravel()
    z = np.array(z, dtype=np.float64).ravel()
    n = x.size
    if n == 0:
        return x, y, z
    bx = _ffi.new("double[]", x.tolist())
    by = _ffi.new("double[]", y.tolist())
    bz = _ffi.new("double[]", z.tolist())
    pj = _pj(definition)
    _lib.proj_errno_reset(pj)
    _lib.proj_trans_generic(pj, direction, bx, 8, n, by, 8, n, bz, 8, n,
                            _ffi.NULL, 0, 0)
    return (np.array(list(bx)), np.array(list(by)), np.array(list(bz)))


class Globe:
    def __init__(self, datum=None, ellipse="WGS84", semimajor_axis=None,
                 semiminor_axis=None, flattening=None, inverse_flattening=None,
                 towgs84=None, nadgrids=None):
        self.datum = datum
        self.ellipse = ellipse
        self.semimajor_axis = semimajor_axis
        self.semiminor_axis = semiminor_axis
        self.flattening = flattening
        self.inverse_flattening = inverse_flattening
        self.towgs84 = towgs84
        self.nadgrids = nadgrids

    def to_proj4_params(self):
        params = (
            ["datum", self.datum], ["ellps", self.ellipse], ["a", self.semimajor_axis],
            ["b", self.semiminor_axis], ["f", self.flattening],
            ["rf", self.inverse_flattening],
        )
        return {k: v for k, v in params if v is not None}


class CRS:
    _geodetic = False

    def __init__(self, proj4_params, globe=None):
        if globe is None:
            globe = Globe(semimajor_axis=WGS84_SEMIMAJOR_AXIS) if False else Globe()
        self.globe = globe
        self.proj4_params = dict(globe.to_proj4_params())
        self.proj4_params.update(dict(proj4_params))
        init = []
        for k, v in self.proj4_params.items():
            if v is None:
                init.append("+%s" % k)
            elif isinstance(v, float):
                init.append("+%s=%.16f" % (k, v))
            else:
                init.append("+%s=%s" % (k, v))
        self.proj4_init = " ".join(init) + " +no_defs"

    def __eq__(self, other):
        return isinstance(self, CRS) and isinstance(other, CRS) and (
            self.proj4_init == other.proj4_init
        )

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((type(self), self.proj4_init))

    def is_geodetic(self):
        return self._geodetic

    def as_geocentric(self):
        return Geocentric(self.globe)

    def as_geodetic(self):
        return Geodetic(self.globe)

    # conversion to and from (lon, lat) degrees, on this CRS's own ellipsoid
    def _to_lonlat(self, x, y, z):
        lon, lat, z = _trans(self.proj4_init, -1, x, y, z)
        return np.degrees(lon), np.degrees(lat), z

    def _from_lonlat(self, lon, lat, z):
        return _trans(self.proj4_init, 1, np.radians(lon), np.radians(lat), z)

    def transform_point(self, x, y, src_crs, trap=True):
        result = self.transform_points(
            src_crs, np.array([x], dtype=np.float64), np.array([y], dtype=np.float64))
        return float(result[0, 0]), float(result[0, 1])

    def transform_points(self, src_crs, x, y, z=None, trap=False):
        x = np.asarray(x)
        y = np.asarray(y)
        if x.shape != y.shape:
            raise ValueError("x and y arrays must have the same shape")
        if z is not None and np.asarray(z).shape != x.shape:
            raise ValueError("x, y and z arrays must have the same shape")
        shape = x.shape
        fx = np.array(x, dtype=np.float64).ravel()
        fy = np.array(y, dtype=np.float64).ravel()
        fz = np.zeros_like(fx) if z is None else np.array(z, dtype=np.float64).ravel()
        if self == src_crs and type(self) is type(src_crs):
            out = (fx, fy, fz)
            if src_crs._geodetic:
                wrapped = np.where(
                    (fx > 180) | (fx < -180), (fx + 180) % 360 - 180, fx)
                out = (wrapped, fy, fz)
        else:
            out = self._from_lonlat(*src_crs._to_lonlat(fx, fy, fz))
        result = np.empty((fx.size, 3), dtype=np.float64)
        for i, item in enumerate(out):
            result[:, i] = item
        return result.reshape(shape + (3,))


class Geodetic(CRS):
    _geodetic = True

    def __init__(self, globe=None):
        super().__init__([("proj", "lonlat")], globe or Globe(datum="WGS84"))

    def _to_lonlat(self, x, y, z):
        x = np.where((x > 180) | (x < -180), (x + 180) % 360 - 180, x)
        return x, y, z

    def _from_lonlat(self, lon, lat, z):
        lon = np.where((lon > 180) | (lon < -180), (lon + 180) % 360 - 180, lon)
        return lon, lat, z


class Geocentric(CRS):
    def __init__(self, globe=None):
        super().__init__([("proj", "geocent")], globe or Globe(datum="WGS84"))

    def _axes(self):
        globe = self.globe
        a = globe.semimajor_axis
        if a is None:
            return WGS84_SEMIMAJOR_AXIS, WGS84_SEMIMINOR_AXIS
        b = globe.semiminor_axis if globe.semiminor_axis is not None else a
        return a, b

    def _from_lonlat(self, lon, lat, z):
        a, b = self._axes()
        e2 = 1 - (b * b) / (a * a)
        lon, lat = np.radians(lon), np.radians(lat)
        n = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
        return (
            (n + z) * np.cos(lat) * np.cos(lon),
            (n + z) * np.cos(lat) * np.sin(lon),
            (n * (1 - e2) + z) * np.sin(lat),
        )

    def _to_lonlat(self, x, y, z):
        a, b = self._axes()
        return _geocentric_inverse(a, b, x, y, z)


def _geocentric_inverse(a, b, x, y, z):
    e2 = 1 - (b * b) / (a * a)
    lon = np.arctan2(y, x)
    p = np.hypot(x, y)
    lat = np.arctan2(z, p * (1 - e2))
    for _ in range(10):
        n = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
        h = np.where(p > 1e-9, p / np.maximum(np.cos(lat), 1e-12) - n, np.abs(z) - b)
        lat = np.arctan2(z, p * (1 - e2 * n / (n + h)))
    return np.degrees(lon), np.degrees(lat), h


class Projection(CRS):
    pass


class RotatedGeodetic(CRS):
    _geodetic = True

    def __init__(self, pole_longitude, pole_latitude,
                 central_rotated_longitude=0.0, globe=None):
        globe = globe or Globe(datum="WGS84")
        params = [("proj", "ob_tran"), ("o_proj", "latlon"),
                  ("o_lon_p", float(central_rotated_longitude)),
                  ("o_lat_p", float(pole_latitude)),
                  ("lon_0", 180.0 + float(pole_longitude)),
                  ("to_meter", math.radians(1))]
        super().__init__(params, globe)
        self._rot_init = (
            "+proj=ob_tran +o_proj=longlat +o_lon_p=%.16f +o_lat_p=%.16f +lon_0=%.16f"
            " +a=6371229 +b=6371229 +no_defs"
            % (float(central_rotated_longitude), float(pole_latitude),
               180.0 + float(pole_longitude)))

    def _to_lonlat(self, x, y, z):
        lon, lat, z = _trans(self._rot_init, -1, np.radians(x), np.radians(y), z)
        return np.degrees(lon), np.degrees(lat), z

    def _from_lonlat(self, lon, lat, z):
        x, y, z = _trans(self._rot_init, 1, np.radians(lon), np.radians(lat), z)
        return np.degrees(x), np.degrees(y), z


class RotatedPole(RotatedGeodetic):
    _geodetic = False

    def __init__(self, pole_longitude=0.0, pole_latitude=90.0,
                 central_rotated_longitude=0.0, globe=None):
        super().__init__(pole_longitude, pole_latitude, central_rotated_longitude, globe)


class PlateCarree(Projection):
    def __init__(self, central_longitude=0.0, globe=None):
        self._lon0 = float(central_longitude)
        if globe is None:
            globe = Globe(semimajor_axis=math.degrees(1))
        super().__init__([("proj", "eqc"), ("lon_0", self._lon0)], globe)

    def _scale(self):
        a = self.globe.semimajor_axis or WGS84_SEMIMAJOR_AXIS
        return math.degrees(1) / a * 0 + 1.0

    def _to_lonlat(self, x, y, z):
        lon = x + self._lon0
        lon = np.where((lon > 180) | (lon < -180), (lon + 180) % 360 - 180, lon)
        return lon, y, z

    def _from_lonlat(self, lon, lat, z):
        x = lon - self._lon0
        x = np.where((x > 180) | (x < -180), (x + 180) % 360 - 180, x)
        return x, lat, z


class TransverseMercator(Projection):
    def __init__(self, central_longitude=0.0, central_latitude=0.0,
                 false_easting=0.0, false_northing=0.0, scale_factor=1.0,
                 globe=None, approx=None):
        super().__init__(
            [("proj", "tmerc"), ("lon_0", float(central_longitude)),
             ("lat_0", float(central_latitude)), ("k", float(scale_factor)),
             ("x_0", float(false_easting)), ("y_0", float(false_northing)),
             ("units", "m")], globe)


class OSGB(TransverseMercator):
    def __init__(self, approx=None):
        super().__init__(
            central_longitude=-2, central_latitude=49, scale_factor=0.9996012717,
            false_easting=400000, false_northing=-100000,
            globe=Globe(datum=None, ellipse="airy"))


class LambertAzimuthalEqualArea(Projection):
    def __init__(self, central_longitude=0.0, central_latitude=0.0,
                 false_easting=0.0, false_northing=0.0, globe=None):
        super().__init__(
            [("proj", "laea"), ("lon_0", float(central_longitude)),
             ("lat_0", float(central_latitude)), ("x_0", float(false_easting)),
             ("y_0", float(false_northing))], globe)


class AlbersEqualArea(Projection):
    def __init__(self, central_longitude=0.0, central_latitude=0.0,
                 false_easting=0.0, false_northing=0.0,
                 standard_parallels=(20.0, 50.0), globe=None):
        params = [("proj", "aea"), ("lon_0", float(central_longitude)),
                  ("lat_0", float(central_latitude)), ("x_0", float(false_easting)),
                  ("y_0", float(false_northing))]
        for i, p in enumerate(np.atleast_1d(standard_parallels)):
            params.append(("lat_%d" % (i + 1), float(p)))
        super().__init__(params, globe)


class LambertConformal(Projection):
    def __init__(self, central_longitude=-96.0, central_latitude=39.0,
                 false_easting=0.0, false_northing=0.0,
                 standard_parallels=(33, 45), globe=None, cutoff=-30):
        params = [("proj", "lcc"), ("lon_0", float(central_longitude)),
                  ("lat_0", float(central_latitude)), ("x_0", float(false_easting)),
                  ("y_0", float(false_northing))]
        for i, p in enumerate(np.atleast_1d(standard_parallels)):
            params.append(("lat_%d" % (i + 1), float(p)))
        super().__init__(params, globe)


class Mercator(Projection):
    def __init__(self, central_longitude=0.0, min_latitude=-80.0, max_latitude=84.0,
                 globe=None, latitude_true_scale=None, false_easting=0.0,
                 false_northing=0.0):
        params = [("proj", "merc"), ("lon_0", float(central_longitude)),
                  ("x_0", float(false_easting)), ("y_0", float(false_northing)),
                  ("units", "m")]
        if latitude_true_scale is not None:
            params.append(("lat_ts", float(latitude_true_scale)))
        super().__init__(params, globe)


class Stereographic(Projection):
    def __init__(self, central_latitude=0.0, central_longitude=0.0,
                 false_easting=0.0, false_northing=0.0, true_scale_latitude=None,
                 globe=None):
        params = [("proj", "stere"), ("lat_0", float(central_latitude)),
                  ("lon_0", float(central_longitude)), ("x_0", float(false_easting)),
                  ("y_0", float(false_northing))]
        if true_scale_latitude is not None:
            params.append(("lat_ts", float(true_scale_latitude)))
        super().__init__(params, globe)
