"""Coordinate systems, as in iris 3.0 (the subset with a cartopy counterpart here)."""
import numpy as np

from ._unsupported import ShimUnsupported


def _arg_default(value, default, cast_as=float):
    return cast_as(default if value is None else value)


def _opt_float(arg):
    return None if arg is None else float(arg)


class CoordSystem:
    grid_mapping_name = None

    def __eq__(self, other):
        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def xml_element(self, doc, attrs=None):
        raise ShimUnsupported("CoordSystem.xml_element")

    def _attrs(self):
        return sorted(self.__dict__.items(), key=lambda kv: kv[0])

    def __repr__(self):
        return "%s(%s)" % (
            type(self).__name__,
            ", ".join("%s=%r" % kv for kv in self._attrs()),
        )

    __str__ = __repr__

    @staticmethod
    def _ellipsoid_to_globe(ellipsoid, globe_default):
        if ellipsoid is not None:
            return ellipsoid.as_cartopy_globe()
        return globe_default

    def as_cartopy_crs(self):
        raise NotImplementedError()

    def as_cartopy_projection(self):
        raise NotImplementedError()


class GeogCS(CoordSystem):
    grid_mapping_name = "latitude_longitude"

    def __init__(self, semi_major_axis=None, semi_minor_axis=None,
                 inverse_flattening=None, longitude_of_prime_meridian=None):
        if (semi_major_axis is None) and (semi_minor_axis is None):
            raise ValueError("No ellipsoid specified")
        self.longitude_of_prime_meridian = _arg_default(longitude_of_prime_meridian, 0)
        if semi_major_axis is not None and semi_minor_axis is not None and (
            inverse_flattening is not None
        ):
            raise ValueError("Ellipsoid is overspecified")
        if semi_major_axis is not None and semi_minor_axis is None and (
            inverse_flattening is None
        ):
            # sphere
            self.semi_major_axis = float(semi_major_axis)
            self.semi_minor_axis = float(semi_major_axis)
            self.inverse_flattening = 0.0
            return
        a = _opt_float(semi_major_axis)
        b = _opt_float(semi_minor_axis)
        f = _opt_float(inverse_flattening)
        if a is not None and b is not None:
            if a == b:
                f = 0.0
            else:
                flattening = (a - b) / a
                f = 1 / flattening
        elif a is not None:
            b = a if f == 0 else a - (1.0 / f) * a
        elif f is not None:
            a = -b / ((1.0 / f) - 1.0)
        else:
            raise ValueError("Insufficient ellipsoid specification")
        self.semi_major_axis, self.semi_minor_axis, self.inverse_flattening = a, b, f

    def _pretty_attrs(self):
        attrs = [("semi_major_axis", self.semi_major_axis)]
        if self.semi_major_axis != self.semi_minor_axis:
            attrs.append(("semi_minor_axis", self.semi_minor_axis))
        if self.longitude_of_prime_meridian != 0:
            attrs.append(
                ("longitude_of_prime_meridian", self.longitude_of_prime_meridian))
        return attrs

    def __repr__(self):
        attrs = self._pretty_attrs()
        if len(attrs) == 1 and attrs[0][0] == "semi_major_axis":
            return "GeogCS(%r)" % self.semi_major_axis
        return "GeogCS(%s)" % ", ".join(["%s=%r" % (k, v) for k, v in attrs])

    __str__ = __repr__

    def as_cartopy_globe(self):
        import cartopy.crs as ccrs

        return ccrs.Globe(
            semimajor_axis=self.semi_major_axis,
            semiminor_axis=self.semi_minor_axis,
            ellipse=None,
        )

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.Geodetic(self.as_cartopy_globe())

    def as_cartopy_projection(self):
        import cartopy.crs as ccrs

        return ccrs.PlateCarree()


class RotatedGeogCS(CoordSystem):
    grid_mapping_name = "rotated_latitude_longitude"

    def __init__(self, grid_north_pole_latitude, grid_north_pole_longitude,
                 north_pole_grid_longitude=None, ellipsoid=None):
        self.grid_north_pole_latitude = float(grid_north_pole_latitude)
        self.grid_north_pole_longitude = float(grid_north_pole_longitude)
        self.north_pole_grid_longitude = _arg_default(north_pole_grid_longitude, 0)
        self.ellipsoid = ellipsoid

    def _globe(self):
        import cartopy.crs as ccrs

        return self._ellipsoid_to_globe(self.ellipsoid, ccrs.Globe())

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.RotatedGeodetic(
            self.grid_north_pole_longitude, self.grid_north_pole_latitude,
            self.north_pole_grid_longitude, self._globe())

    def as_cartopy_projection(self):
        import cartopy.crs as ccrs

        return ccrs.RotatedPole(
            self.grid_north_pole_longitude, self.grid_north_pole_latitude,
            self.north_pole_grid_longitude, self._globe())


class TransverseMercator(CoordSystem):
    grid_mapping_name = "transverse_mercator"

    def __init__(self, latitude_of_projection_origin, longitude_of_central_meridian,
                 false_easting=None, false_northing=None,
                 scale_factor_at_central_meridian=None, ellipsoid=None):
        self.latitude_of_projection_origin = float(latitude_of_projection_origin)
        self.longitude_of_central_meridian = float(longitude_of_central_meridian)
        self.false_easting = _arg_default(false_easting, 0)
        self.false_northing = _arg_default(false_northing, 0)
        self.scale_factor_at_central_meridian = _arg_default(
            scale_factor_at_central_meridian, 1.0)
        self.ellipsoid = ellipsoid

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.TransverseMercator(
            central_longitude=self.longitude_of_central_meridian,
            central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting, false_northing=self.false_northing,
            scale_factor=self.scale_factor_at_central_meridian,
            globe=self._ellipsoid_to_globe(self.ellipsoid, None))

    as_cartopy_projection = as_cartopy_crs


class OSGB(TransverseMercator):
    def __init__(self):
        TransverseMercator.__init__(
            self, 49, -2, 400000, -100000, 0.9996012717,
            GeogCS(6377563.396, 6356256.909))

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.OSGB()

    as_cartopy_projection = as_cartopy_crs


class LambertAzimuthalEqualArea(CoordSystem):
    grid_mapping_name = "lambert_azimuthal_equal_area"

    def __init__(self, latitude_of_projection_origin=0.0,
                 longitude_of_projection_origin=0.0,
                 false_easting=None, false_northing=None, ellipsoid=None):
        self.latitude_of_projection_origin = float(latitude_of_projection_origin)
        self.longitude_of_projection_origin = float(longitude_of_projection_origin)
        self.false_easting = _arg_default(false_easting, 0)
        self.false_northing = _arg_default(false_northing, 0)
        self.ellipsoid = ellipsoid

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.LambertAzimuthalEqualArea(
            central_longitude=self.longitude_of_projection_origin,
            central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting, false_northing=self.false_northing,
            globe=self._ellipsoid_to_globe(self.ellipsoid, ccrs.Globe()))

    as_cartopy_projection = as_cartopy_crs


class AlbersEqualArea(CoordSystem):
    grid_mapping_name = "albers_conical_equal_area"

    def __init__(self, latitude_of_projection_origin=None,
                 longitude_of_central_meridian=None, false_easting=None,
                 false_northing=None, standard_parallels=None, ellipsoid=None):
        self.latitude_of_projection_origin = _arg_default(latitude_of_projection_origin, 0)
        self.longitude_of_central_meridian = _arg_default(longitude_of_central_meridian, 0)
        self.false_easting = _arg_default(false_easting, 0)
        self.false_northing = _arg_default(false_northing, 0)
        self.standard_parallels = tuple(
            standard_parallels if standard_parallels is not None else (20.0, 50.0))
        self.ellipsoid = ellipsoid

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.AlbersEqualArea(
            central_longitude=self.longitude_of_central_meridian,
            central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting, false_northing=self.false_northing,
            standard_parallels=self.standard_parallels,
            globe=self._ellipsoid_to_globe(self.ellipsoid, ccrs.Globe()))

    as_cartopy_projection = as_cartopy_crs


class LambertConformal(CoordSystem):
    grid_mapping_name = "lambert_conformal_conic"

    def __init__(self, central_lat=None, central_lon=None, false_easting=None,
                 false_northing=None, secant_latitudes=None, ellipsoid=None):
        self.central_lat = _arg_default(central_lat, 39.0)
        self.central_lon = _arg_default(central_lon, -96.0)
        self.false_easting = _arg_default(false_easting, 0)
        self.false_northing = _arg_default(false_northing, 0)
        self.secant_latitudes = tuple(
            np.atleast_1d(secant_latitudes if secant_latitudes is not None else (33, 45)))
        self.ellipsoid = ellipsoid

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.LambertConformal(
            central_longitude=self.central_lon, central_latitude=self.central_lat,
            false_easting=self.false_easting, false_northing=self.false_northing,
            standard_parallels=self.secant_latitudes,
            globe=self._ellipsoid_to_globe(self.ellipsoid, ccrs.Globe()))

    as_cartopy_projection = as_cartopy_crs


class Mercator(CoordSystem):
    grid_mapping_name = "mercator"

    def __init__(self, longitude_of_projection_origin=None, ellipsoid=None,
                 standard_parallel=None):
        self.longitude_of_projection_origin = _arg_default(
            longitude_of_projection_origin, 0)
        self.ellipsoid = ellipsoid
        self.standard_parallel = _arg_default(standard_parallel, 0)

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.Mercator(
            central_longitude=self.longitude_of_projection_origin,
            latitude_true_scale=self.standard_parallel,
            globe=self._ellipsoid_to_globe(self.ellipsoid, ccrs.Globe()))

    as_cartopy_projection = as_cartopy_crs


class Stereographic(CoordSystem):
    grid_mapping_name = "stereographic"

    def __init__(self, central_lat, central_lon, false_easting=None,
                 false_northing=None, true_scale_lat=None, ellipsoid=None):
        self.central_lat = float(central_lat)
        self.central_lon = float(central_lon)
        self.false_easting = _arg_default(false_easting, 0)
        self.false_northing = _arg_default(false_northing, 0)
        self.true_scale_lat = _opt_float(true_scale_lat)
        self.ellipsoid = ellipsoid

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.Stereographic(
            self.central_lat, self.central_lon, self.false_easting,
            self.false_northing, self.true_scale_lat,
            globe=self._ellipsoid_to_globe(self.ellipsoid, ccrs.Globe()))

    as_cartopy_projection = as_cartopy_crs
