"""CF-netCDF saving and loading (stand-in for iris.fileformats.netcdf)."""
import os
import re

import cf_units
import netCDF4
import numpy as np

from .. import coord_systems as ics
from .._cf_common import LimitedAttributeDict, token
from .._unsupported import ShimUnsupported
from ..coords import AuxCoord, CellMethod, DimCoord

CF_CONVENTIONS_VERSION = "CF-1.7"
_GLOBAL = ("conventions", "featureType", "history", "title")


def _names(base, used):
    name = base
    i = 0
    while name in used:
        name = "%s_%d" % (base, i)
        i += 1
    used.add(name)
    return name


def _var_name_of(item):
    if item.var_name:
        return item.var_name
    name = item.name() or "unknown"
    name = "_".join(name.replace("(", "").replace(")", "").split())
    return token(name) or re.sub(r"[^\w.+\-@]", "_", name)


def _attr(var, key, value):
    if isinstance(value, (bool, np.bool_)):
        value = np.int8(value)
    if isinstance(value, str):
        var.setncattr_string(key, value) if False else var.setncattr(key, value)
    else:
        var.setncattr(key, value)


def _cs_attrs(cs):
    out = {"grid_mapping_name": cs.grid_mapping_name}
    ell = cs if isinstance(cs, ics.GeogCS) else cs.ellipsoid
    if ell is not None:
        if ell.semi_major_axis == ell.semi_minor_axis:
            out["earth_radius"] = ell.semi_major_axis
        else:
            out["semi_major_axis"] = ell.semi_major_axis
            out["semi_minor_axis"] = ell.semi_minor_axis
    if isinstance(cs, ics.GeogCS):
        out["longitude_of_prime_meridian"] = cs.longitude_of_prime_meridian
    else:
        if ell is not None:
            out["longitude_of_prime_meridian"] = ell.longitude_of_prime_meridian
    if isinstance(cs, ics.LambertAzimuthalEqualArea):
        for k in ("longitude_of_projection_origin", "latitude_of_projection_origin",
                  "false_easting", "false_northing"):
            out[k] = getattr(cs, k)
    elif isinstance(cs, ics.TransverseMercator):
        out["longitude_of_central_meridian"] = cs.longitude_of_central_meridian
        out["latitude_of_projection_origin"] = cs.latitude_of_projection_origin
        out["scale_factor_at_central_meridian"] = cs.scale_factor_at_central_meridian
        out["false_easting"] = cs.false_easting
        out["false_northing"] = cs.false_northing
    elif isinstance(cs, ics.RotatedGeogCS):
        for k in ("grid_north_pole_latitude", "grid_north_pole_longitude",
                  "north_pole_grid_longitude"):
            out[k] = getattr(cs, k)
    elif isinstance(cs, ics.AlbersEqualArea):
        for k in ("longitude_of_central_meridian", "latitude_of_projection_origin",
                  "false_easting", "false_northing"):
            out[k] = getattr(cs, k)
        out["standard_parallel"] = list(cs.standard_parallels)
    elif not isinstance(cs, ics.GeogCS):
        raise ShimUnsupported("saving of coordinate system %r" % cs)
    return out


def _cs_from(var):
    a = {k: var.getncattr(k) for k in var.ncattrs()}
    kind = a.get("grid_mapping_name")
    ell = None
    if "earth_radius" in a:
        ell = ics.GeogCS(float(a["earth_radius"]), longitude_of_prime_meridian=a.get(
            "longitude_of_prime_meridian"))
    elif "semi_major_axis" in a:
        ell = ics.GeogCS(
            float(a["semi_major_axis"]),
            float(a["semi_minor_axis"]) if "semi_minor_axis" in a else None,
            None if "semi_minor_axis" in a else a.get("inverse_flattening"),
            a.get("longitude_of_prime_meridian"))
    if kind == "latitude_longitude":
        return ell
    if kind == "lambert_azimuthal_equal_area":
        return ics.LambertAzimuthalEqualArea(
            a["latitude_of_projection_origin"], a["longitude_of_projection_origin"],
            a.get("false_easting"), a.get("false_northing"), ell)
    if kind == "transverse_mercator":
        return ics.TransverseMercator(
            a["latitude_of_projection_origin"], a["longitude_of_central_meridian"],
            a.get("false_easting"), a.get("false_northing"),
            a.get("scale_factor_at_central_meridian"), ell)
    if kind == "rotated_latitude_longitude":
        return ics.RotatedGeogCS(
            a["grid_north_pole_latitude"], a["grid_north_pole_longitude"],
            a.get("north_pole_grid_longitude"), ell)
    if kind == "albers_conical_equal_area":
        return ics.AlbersEqualArea(
            a["latitude_of_projection_origin"], a["longitude_of_central_meridian"],
            a.get("false_easting"), a.get("false_northing"),
            tuple(np.atleast_1d(a["standard_parallel"])), ell)
    raise ShimUnsupported("loading of grid mapping %r" % kind)


class _Saver:
    def __init__(self, ds):
        self.ds = ds
        self.dims = {}
        self.coords = []
        self.grid_mappings = []
        self.used = set()

    def coord(self, cube, coord, dim_names):
        for saved, dims, name in self.coords:
            if saved == coord and dims == tuple(dim_names) and (
                type(saved) is type(coord)
            ):
                return name
        ds = self.ds
        is_dim = len(dim_names) == 1 and any(coord is c for c in cube.dim_coords)
        name = dim_names[0] if is_dim else _names(_var_name_of(coord), self.used)
        pts = coord.points
        if not dim_names:
            pts = pts.reshape(()) if pts.dtype.kind not in "SU" else pts[0]
        if coord.dtype.kind in "SU":
            chars = [str(p) for p in coord.points.ravel()]
            n = max([len(c.encode()) for c in chars] + [1])
            strdim = "string%d" % n
            if strdim not in ds.dimensions:
                ds.createDimension(strdim, n)
            var = ds.createVariable(name, "S1", tuple(dim_names) + (strdim,))
            arr = np.array([list(c.encode().ljust(n, b"\0")) for c in chars],
                           dtype=np.uint8).view("S1")
            var[:] = arr.reshape(tuple(ds.dimensions[d].size for d in dim_names) + (n,))
        else:
            var = ds.createVariable(name, pts.dtype.newbyteorder("="), tuple(dim_names))
            if is_dim:
                axis = {"X": "X", "Y": "Y", "Z": "Z", "T": "T"}.get(_axis(coord))
                if axis:
                    var.axis = axis
            if coord.has_bounds():
                bname = _names(name + "_bnds", self.used)
                if "bnds" not in ds.dimensions:
                    ds.createDimension("bnds", coord.nbounds)
                bvar = ds.createVariable(
                    bname, coord.bounds.dtype.newbyteorder("="),
                    tuple(dim_names) + ("bnds",))
                b = coord.bounds
                bvar[:] = b if dim_names else b.reshape((coord.nbounds,))
                var.bounds = bname
            var[...] = pts
        if coord.units.is_udunits():
            if coord.dtype.kind not in "SU":
                var.units = _units_str(coord.units)
        if coord.units.is_time_reference() and coord.units.calendar:
            var.calendar = coord.units.calendar
        if coord.standard_name:
            var.standard_name = coord.standard_name
        if coord.long_name:
            var.long_name = coord.long_name
        for k, v in sorted(coord.attributes.items()):
            _attr(var, k, v)
        self.coords.append((coord, tuple(dim_names), name))
        return name

    def grid_mapping(self, cs):
        for saved, name in self.grid_mappings:
            if saved == cs:
                return name
        name = _names(cs.grid_mapping_name, self.used)
        var = self.ds.createVariable(name, np.int32)
        for k, v in _cs_attrs(cs).items():
            var.setncattr(k, v)
        self.grid_mappings.append((cs, name))
        return name


def _units_str(units):
    return str(units)


def _axis(coord):
    from ..util import guess_coord_axis

    return guess_coord_axis(coord)


def save(cube, filename, netcdf_format="NETCDF4", local_keys=None, unlimited_dimensions=None,
         zlib=False, complevel=4, shuffle=True, fletcher32=False, contiguous=False,
         chunksizes=None, endian="native", least_significant_digit=None,
         packing=None, fill_value=None):
    from ..cube import Cube, CubeList

    cubes = CubeList([cube]) if isinstance(cube, Cube) else CubeList(list(cube))
    local_keys = set(local_keys or ())
    first = cubes[0]
    common = set(first.attributes)
    from .._cf_common import values_equal

    for c in cubes[1:]:
        keys = set(c.attributes)
        local_keys |= keys ^ common if False else set()
        for k in set(common):
            if k not in c.attributes or not np.all(
                values_equal(c.attributes[k], first.attributes[k])
            ):
                common.discard(k)
    common -= local_keys
    ds = netCDF4.Dataset(filename, "w", format=netcdf_format)
    try:
        saver = _Saver(ds)
        for c in cubes:
            _save_cube(saver, c, common, zlib, complevel, shuffle, fletcher32,
                       contiguous, chunksizes, endian, least_significant_digit,
                       fill_value)
        for k in sorted(common):
            if k.lower() != "conventions":
                _attr(ds, k, first.attributes[k])
        ds.setncattr("Conventions", CF_CONVENTIONS_VERSION)
    finally:
        ds.close()


def _save_cube(saver, cube, common, zlib, complevel, shuffle, fletcher32, contiguous,
               chunksizes, endian, lsd, fill_value):
    ds = saver.ds
    dim_names = []
    for d in range(cube.ndim):
        found = cube.coords(dim_coords=True, contains_dimension=d)
        size = cube.shape[d]
        if found:
            coord = found[0]
            name = None
            for saved, dims, cname in saver.coords:
                if len(dims) == 1 and dims[0] == cname and saved == coord:
                    name = cname
            if name is None:
                base = _var_name_of(coord)
                name = base
                i = 0
                while name in ds.dimensions or name in saver.used:
                    name = "%s_%d" % (base, i)
                    i += 1
                ds.createDimension(name, size)
                saver.used.add(name)
        else:
            name = "dim%d" % d
            i = 0
            base = name
            while (name in ds.dimensions and ds.dimensions[name].size != size) or (
                name in dim_names
            ):
                name = "%s_%d" % (base, i)
                i += 1
            if name not in ds.dimensions:
                ds.createDimension(name, size)
        dim_names.append(name)
    aux_names = []
    mappings = []
    for coord in list(cube.dim_coords) + sorted(cube.aux_coords, key=lambda c: c.name()):
        dims = [dim_names[d] for d in cube.coord_dims(coord)]
        name = saver.coord(cube, coord, dims)
        if not any(coord is c for c in cube.dim_coords):
            aux_names.append(name)
        if coord.coord_system is not None:
            gm = saver.grid_mapping(coord.coord_system)
            if gm not in mappings:
                mappings.append(gm)
    name = _names(_var_name_of(cube), saver.used)
    data = cube.data
    kw = {}
    if cube.ndim:
        kw = dict(zlib=zlib, complevel=complevel, shuffle=shuffle,
                  fletcher32=fletcher32, contiguous=contiguous)
        if chunksizes is not None:
            kw["chunksizes"] = chunksizes
    if lsd is not None:
        kw["least_significant_digit"] = lsd
    if np.ma.isMaskedArray(data):
        if fill_value is None:
            fv = netCDF4.default_fillvals.get(data.dtype.str[1:])
        else:
            fv = fill_value
        kw["fill_value"] = fv
    elif fill_value is not None:
        kw["fill_value"] = fill_value
    if data.dtype.kind in "SU":
        raise ShimUnsupported("saving of string data")
    store = data
    if data.dtype.kind == "b":
        store = data.astype(np.int8)
    var = ds.createVariable(name, store.dtype.newbyteorder("="), tuple(dim_names), **kw)
    if cube.ndim == 0:
        var[...] = store
    elif store.size:
        var[:] = store
    if cube.standard_name:
        var.standard_name = cube.standard_name
    if cube.long_name:
        var.long_name = cube.long_name
    if cube.units.is_udunits():
        var.units = _units_str(cube.units)
        if cube.units.calendar:
            var.calendar = cube.units.calendar
    elif cube.units.is_no_unit():
        var.units = "no_unit"
    for k in sorted(cube.attributes):
        if k in common or k.lower() == "conventions":
            continue
        _attr(var, k, cube.attributes[k])
    if cube.cell_methods:
        var.cell_methods = " ".join(str(m) for m in cube.cell_methods)
    if mappings:
        var.grid_mapping = mappings[0]
    if aux_names:
        var.coordinates = " ".join(sorted(aux_names))


# loading -------------------------------------------------------------------------
_IGNORED = {"standard_name", "long_name", "units", "bounds", "axis", "calendar",
            "coordinates", "grid_mapping", "cell_methods", "_FillValue",
            "missing_value", "scale_factor", "add_offset", "climatology",
            "ancillary_variables", "cell_measures", "formula_terms"}


def _parse_cell_methods(text):
    methods = []
    for m in re.finditer(
        r"((?:[\w\-]+: )+)([\w ]+?)(?: \(([^)]*)\))?(?=(?: [\w\-]+: )|$)", text.strip()
    ):
        names = [n for n in re.findall(r"([\w\-]+): ", m.group(1))]
        intervals, comments = [], []
        extra = m.group(3)
        if extra:
            for part in re.split(r", (?=interval:|comment:)", extra):
                if part.startswith("interval:"):
                    intervals.append(part[len("interval:"):].strip())
                elif part.startswith("comment:"):
                    comments.append(part[len("comment:"):].strip())
                else:
                    comments.append(part)
        methods.append(CellMethod(m.group(2), names, intervals or None, comments or None))
    return tuple(methods)


def _native(v):
    if isinstance(v, np.generic):
        return v
    return v


def _units_of(var):
    units = getattr(var, "units", None)
    if units is None:
        return cf_units.Unit("unknown")
    if units in ("no_unit", "no-unit", "no unit"):
        return cf_units.Unit("no_unit")
    calendar = getattr(var, "calendar", None)
    try:
        unit = cf_units.Unit(units, calendar=calendar)
        if unit.is_time_reference() and calendar is None:
            unit = cf_units.Unit(units, calendar=cf_units.CALENDAR_GREGORIAN)
    except ValueError:
        unit = cf_units.Unit("unknown")
    return unit


def _values(var):
    var.set_auto_chartostring(False)
    data = var[...]
    if var.dtype.kind == "S" or str(var.dtype) == "|S1":
        raw = np.ma.getdata(data)
        if raw.ndim == 0:
            raw = raw.reshape((1,))
        joined = netCDF4.chartostring(
            np.where(raw == b"", b"\0", raw) if False else raw)
        return np.char.strip(np.atleast_1d(joined))
    if np.ma.isMaskedArray(data) and not np.ma.is_masked(data):
        data = np.ma.getdata(data)
    return data


def load_cubes(filename):
    from ..cube import Cube

    if not os.path.exists(filename):
        raise OSError(filename)
    ds = netCDF4.Dataset(filename, "r")
    result = []
    try:
        vs = ds.variables
        support = set()
        for n, v in vs.items():
            for attr in ("bounds", "grid_mapping", "climatology"):
                if attr in v.ncattrs():
                    support.add(v.getncattr(attr))
            if "coordinates" in v.ncattrs():
                support.update(v.getncattr("coordinates").split())
            if n in ds.dimensions and v.dimensions[:1] == (n,):
                support.add(n)
            if "grid_mapping_name" in v.ncattrs():
                support.add(n)
        glob = {k: _native(ds.getncattr(k)) for k in ds.ncattrs()}
        for n, v in vs.items():
            if n in support:
                continue
            data = v[...]
            data = data if np.ma.isMaskedArray(data) else np.asarray(data)
            data = data.reshape(v.shape)
            import dask.array as da

            data = da.from_array(data, asarray=False, chunks=data.shape, name=False)
            cube = Cube(data)
            _identity(cube, v, n)
            attrs = dict(glob)
            for k in v.ncattrs():
                if k not in _IGNORED:
                    attrs[k] = _native(v.getncattr(k))
            cube.attributes = {k: a for k, a in attrs.items()
                               if k not in LimitedAttributeDict._forbidden_keys}
            if "cell_methods" in v.ncattrs():
                cube.cell_methods = _parse_cell_methods(v.getncattr("cell_methods"))
            cs = None
            if "grid_mapping" in v.ncattrs() and v.grid_mapping in vs:
                cs = _cs_from(vs[v.grid_mapping])
            for d, dname in enumerate(v.dimensions):
                if dname in vs and vs[dname].dimensions == (dname,):
                    coord = _coord(ds, dname, cs, True)
                    if isinstance(coord, DimCoord):
                        cube.add_dim_coord(coord, d)
                    else:
                        cube.add_aux_coord(coord, d)
            names = v.getncattr("coordinates").split() if (
                "coordinates" in v.ncattrs()) else []
            for cname in names:
                if cname not in vs:
                    continue
                cvar = vs[cname]
                cdims = [dn for dn in cvar.dimensions if dn in v.dimensions]
                coord = _coord(ds, cname, cs, not cdims or len(cdims) == 1)
                cube.add_aux_coord(
                    coord, tuple(v.dimensions.index(dn) for dn in cdims) or None)
            result.append(cube)
    finally:
        ds.close()
    return result


def _identity(item, var, name):
    std = getattr(var, "standard_name", None)
    long_name = getattr(var, "long_name", None)
    try:
        item.standard_name = std
    except ValueError:
        long_name = long_name or std
    item.long_name = long_name
    item.var_name = name
    item.units = _units_of(var)


_CS_NAMES = {
    "GeogCS": ("latitude", "longitude"),
    "RotatedGeogCS": ("grid_latitude", "grid_longitude"),
}


def _coord(ds, name, cs, try_dim):
    var = ds.variables[name]
    pts = _values(var)
    attrs = {k: _native(var.getncattr(k)) for k in var.ncattrs() if k not in _IGNORED}
    bounds = None
    if "bounds" in var.ncattrs() and var.bounds in ds.variables:
        bounds = np.ma.getdata(ds.variables[var.bounds][...])
    pts = np.atleast_1d(pts)
    if bounds is not None and bounds.ndim == 1:
        bounds = bounds.reshape((1, -1))
    std = getattr(var, "standard_name", None)
    coord_cs = None
    if cs is not None:
        names = _CS_NAMES.get(
            type(cs).__name__, ("projection_y_coordinate", "projection_x_coordinate"))
        if std in names:
            coord_cs = cs
    coord = None
    if try_dim and pts.dtype.kind in "biuf" and pts.ndim == 1:
        try:
            coord = DimCoord(pts, bounds=bounds, units=_units_of(var))
        except ValueError:
            coord = None
    if coord is None:
        units = _units_of(var) if pts.dtype.kind in "biuf" else cf_units.Unit("no_unit")
        coord = AuxCoord(pts, bounds=bounds, units=units)
    units = coord.units
    _identity(coord, var, name)
    coord.units = units
    coord.attributes = attrs
    coord.coord_system = coord_cs
    if isinstance(coord, DimCoord) and std in ("longitude", "grid_longitude"):
        coord.circular = _circular(coord)
    return coord


def _circular(coord):
    if coord.shape[0] < 2:
        return False
    step = np.diff(coord.points).mean()
    return bool(abs(abs(step) * coord.shape[0] - 360.0) < abs(step) * 1e-3) and (
        coord.units.is_convertible("degrees") and len(coord.points) > 2
        and False or abs(abs(step) * coord.shape[0] - 360.0) < 1e-3)
