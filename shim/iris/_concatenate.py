"""Cube concatenation along an existing dimension (stand-in for iris._concatenate)."""
import numpy as np

from ._cf_common import metadata_equal
from ._lazy_data import is_lazy_data
from .coords import AuxCoord, DimCoord
from .exceptions import ConcatenateError


def _find_axis(a, b):
    """(axis, messages): the one dimension along which b can extend a."""
    msgs = []
    if a.metadata != b.metadata:
        msgs.append("Cube metadata differs for phenomenon: %s" % a.name())
    if a.ndim != b.ndim:
        msgs.append("Data dimensions differ: %d != %d" % (a.ndim, b.ndim))
    if a.dtype != b.dtype:
        msgs.append("Data types differ: %s != %s" % (a.dtype, b.dtype))
    da, db = a.dim_coords, b.dim_coords
    if [c.name() for c in da] != [c.name() for c in db] or not all(
        metadata_equal(x.metadata, y.metadata) for x, y in zip(da, db)
    ) or any(a.coord_dims(x) != b.coord_dims(y) for x, y in zip(da, db)):
        msgs.append("Dimension coordinates metadata differ: %s != %s" % (
            ", ".join(c.name() for c in da), ", ".join(c.name() for c in db)))
    if msgs:
        return None, msgs
    axes = [a.coord_dims(x)[0] for x, y in zip(da, db) if not x == y]
    anon = [d for d in range(a.ndim)
            if not a.coords(dim_coords=True, contains_dimension=d)]
    if not axes and anon:
        axes = [d for d in anon if a.shape[d] != b.shape[d]] or anon[:0]
    if len(axes) != 1:
        return None, ["Expected to find exactly one dimension to concatenate along"]
    axis = axes[0]
    aux_a = {c.name(): c for c in a.aux_coords}
    aux_b = {c.name(): c for c in b.aux_coords}
    if set(aux_a) != set(aux_b):
        return None, ["Auxiliary coordinates differ: %s" % ", ".join(
            sorted(set(aux_a) ^ set(aux_b)))]
    for name, ca in aux_a.items():
        cb = aux_b[name]
        if a.coord_dims(ca) != b.coord_dims(cb) or not metadata_equal(
            ca.metadata, cb.metadata
        ):
            return None, ["Auxiliary coordinates metadata differ: %s" % name]
        if axis in a.coord_dims(ca):
            if ca.has_bounds() != cb.has_bounds():
                return None, ["bounds differ: %s" % name]
        elif not ca == cb:
            kind = "Scalar" if not a.coord_dims(ca) else "Auxiliary"
            return None, ["%s coordinates values or metadata differ: %s" % (kind, name)]
    return axis, []


def _order(cubes, axis):
    """The cubes sorted along the axis, or None when they overlap."""
    coord = [c.coords(dim_coords=True, contains_dimension=axis) for c in cubes]
    if not coord[0]:
        return list(cubes)
    coord = [c[0] for c in coord]
    directions = {np.sign(float(c.points[-1] - c.points[0]))
                  for c in coord if c.shape[0] > 1}
    if len(directions) > 1:
        return None
    direction = directions.pop() if directions else 1
    ext = [(float(c.points.min()), float(c.points.max()), i)
           for i, c in enumerate(coord)]
    ext.sort()
    for x, y in zip(ext[:-1], ext[1:]):
        if y[0] <= x[1]:
            return None
    if direction < 0:
        ext = ext[::-1]
    return [cubes[i] for _, _, i in ext]


def _join_coord(coords, cubes, axis, cls):
    dims = cubes[0].coord_dims(coords[0])
    ax = dims.index(axis)
    pts = np.concatenate([c.points for c in coords], axis=ax)
    bnds = None
    if all(c.has_bounds() for c in coords):
        bnds = np.concatenate([c.bounds for c in coords], axis=ax)
    c0 = coords[0]
    kw = dict(standard_name=c0.standard_name, long_name=c0.long_name,
              var_name=c0.var_name, units=c0.units, bounds=bnds,
              attributes=c0.attributes, coord_system=c0.coord_system)
    if cls is DimCoord:
        try:
            return DimCoord(pts, **kw)
        except ValueError:
            return AuxCoord(pts, **kw)
    return AuxCoord(pts, **kw)


def _join(cubes, axis):
    from .cube import Cube

    pieces = [c.core_data() for c in cubes]
    if any(is_lazy_data(p) for p in pieces):
        import dask.array as da

        data = da.concatenate(pieces, axis=axis)
    elif any(np.ma.isMaskedArray(p) for p in pieces):
        data = np.ma.concatenate(pieces, axis=axis)
    else:
        data = np.concatenate(pieces, axis=axis)
    first = cubes[0]
    new = Cube(data)
    new.metadata = first.metadata
    for coord in first.dim_coords:
        d = first.coord_dims(coord)[0]
        if d == axis:
            joined = _join_coord([c.coord(coord) for c in cubes], cubes, axis, DimCoord)
            if not isinstance(joined, DimCoord):
                return None
            new.add_dim_coord(joined, d)
        else:
            new.add_dim_coord(coord.copy(), d)
    for coord in first.aux_coords:
        dims = first.coord_dims(coord)
        if axis in dims:
            new.add_aux_coord(
                _join_coord([c.coord(coord.name()) for c in cubes], cubes, axis,
                            type(coord)), dims)
        else:
            new.add_aux_coord(coord.copy(), dims)
    return new


def concatenate(cubes, check_aux_coords=True, error=False):
    from .cube import CubeList

    groups = []
    for cube in cubes:
        for g in groups:
            axis, msgs = _find_axis(g["cubes"][0], cube)
            if axis is not None and (g["axis"] is None or g["axis"] == axis):
                g["cubes"].append(cube)
                g["axis"] = axis
                break
            if error:
                raise ConcatenateError(msgs or ["cubes do not share an axis"])
        else:
            groups.append({"cubes": [cube], "axis": None})
    result = CubeList()
    for g in groups:
        if len(g["cubes"]) == 1:
            result.append(g["cubes"][0])
            continue
        ordered = _order(g["cubes"], g["axis"])
        joined = _join(ordered, g["axis"]) if ordered is not None else None
        if joined is None:
            if error:
                raise ConcatenateError(["Found cubes with overlapping coordinates"])
            result.extend(g["cubes"])
        else:
            result.append(joined)
    return result
