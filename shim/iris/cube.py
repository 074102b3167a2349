"""Cubes and cube lists (stand-in for iris.cube, iris 3.0 behaviour)."""
import copy
import zlib
from collections import OrderedDict, namedtuple
from collections.abc import Iterator

import numpy as np

from . import exceptions
from ._cf_common import (
    CFVariableMixin,
    CubeMetadata,
    attributes_equal,
    as_iterable,
    metadata_equal,
)
from ._constraints import list_of_constraints
from ._lazy_data import as_concrete_data, as_lazy_data, is_lazy_data
from ._unsupported import ShimUnsupported
from .coords import AncillaryVariable, AuxCoord, CellMeasure, CellMethod, Coord, DimCoord
from .util import _build_full_slice_given_keys, _index_array, _normalise_key

__all__ = ["Cube", "CubeList", "CubeMetadata"]
CubeAttrsDict = dict


def _checksum(array):
    if array is None:
        return "none"
    array = as_concrete_data(array)
    if np.ma.isMaskedArray(array):
        mask = np.ma.getmaskarray(array)
        if array.dtype.kind in "SUO":
            return repr(array.tolist())
        data = np.ascontiguousarray(array.filled(np.array(0).astype(array.dtype)))
        return "0x%08x m0x%08x" % (
            zlib.crc32(_normal(data).tobytes()) & 0xFFFFFFFF,
            zlib.crc32(np.ascontiguousarray(mask).tobytes()) & 0xFFFFFFFF)
    if array.dtype.kind in "SUO":
        return repr(array.tolist())
    return "0x%08x" % (
        zlib.crc32(_normal(np.ascontiguousarray(array)).tobytes()) & 0xFFFFFFFF)


def _normal(a):
    # -0.0 and 0.0 are the same value
    return a + 0 if a.dtype.kind == "f" else a


class CubeList(list):
    def __new__(cls, list_of_cubes=None):
        cube_list = list.__new__(cls, list_of_cubes)
        return cube_list

    def __init__(self, list_of_cubes=None):
        items = [] if list_of_cubes is None else list(list_of_cubes)
        super().__init__(items)

    def __str__(self):
        result = ["%s: %s" % (i, cube.summary(shorten=True))
                  for i, cube in enumerate(self)]
        return "\n".join(result) if result else "< No cubes >"

    def __repr__(self):
        return "[%s]" % ",\n".join([repr(cube) for cube in self])

    def __add__(self, other):
        return CubeList(list.__add__(self, other))

    def __getitem__(self, keys):
        result = super().__getitem__(keys)
        if isinstance(result, list):
            result = CubeList(result)
        return result

    def __getslice__(self, start, stop):
        return CubeList(list.__getslice__(self, start, stop))

    def __copy__(self):
        return CubeList(list(self))

    def copy(self):
        return CubeList(list(self))

    def xml(self, checksum=False, order=True, byteorder=True):
        return "\n".join(c.xml(checksum=checksum, order=order, byteorder=byteorder)
                         for c in self)

    def extract(self, constraints, strict=False):
        constraints = list_of_constraints(constraints)
        result = CubeList()
        for constraint in constraints:
            for cube in self:
                sub = constraint.extract(cube)
                if sub is not None:
                    result.append(sub)
        if strict:
            if len(constraints) != len(result):
                raise exceptions.ConstraintMismatchError(
                    "Got %s cubes for constraint(s)" % len(result))
            return result[0] if len(constraints) == 1 else result
        return result

    def extract_cube(self, constraint):
        constraint, = list_of_constraints(constraint)
        result = [r for r in (constraint.extract(c) for c in self) if r is not None]
        if len(result) != 1:
            raise exceptions.ConstraintMismatchError(
                "Got %s cubes for constraint %r, expecting 1." % (
                    len(result), constraint))
        return result[0]

    def extract_cubes(self, constraints):
        return CubeList([self.extract_cube(c) for c in list_of_constraints(constraints)])

    def extract_strict(self, constraints):
        return self.extract(constraints, strict=True)

    def extract_overlapping(self, coord_names):
        raise ShimUnsupported("CubeList.extract_overlapping")

    def merge(self, unique=True):
        from ._merge import merge

        return merge(self, unique)

    def merge_cube(self):
        from ._merge import merge_cube

        return merge_cube(self)

    def concatenate(self, check_aux_coords=True, check_cell_measures=True,
                    check_ancils=True):
        from ._concatenate import concatenate

        return concatenate(self, check_aux_coords=check_aux_coords)

    def concatenate_cube(self, check_aux_coords=True, check_cell_measures=True,
                         check_ancils=True):
        from ._concatenate import concatenate

        if not self:
            raise ValueError("can't concatenate an empty CubeList")
        names = [cube.metadata.name() for cube in self]
        if len(set(names)) != 1:
            raise exceptions.ConcatenateError(
                ["Cube names differ: {} != {}".format(*sorted(set(names))[:2])])
        res = concatenate(self, check_aux_coords=check_aux_coords, error=len(self) > 1)
        if len(res) != 1:
            raise exceptions.ConcatenateError(
                ["An unexpected problem prevented concatenation.",
                 "Expected only a single cube, found {}.".format(len(res))])
        return res[0]

    def realise_data(self):
        for cube in self:
            cube.data


class Cube(CFVariableMixin):
    _CAT = None

    def __init__(self, data, standard_name=None, long_name=None, var_name=None,
                 units=None, attributes=None, cell_methods=None,
                 dim_coords_and_dims=None, aux_coords_and_dims=None,
                 aux_factories=None, cell_measures_and_dims=None,
                 ancillary_variables_and_dims=None):
        if isinstance(data, str):
            raise TypeError("Invalid data type: {!r}.".format(data))
        self._data = None
        self._dim_coords_and_dims = []
        self._aux_coords_and_dims = []
        self._cell_measures_and_dims = []
        self._ancillary_variables_and_dims = []
        self._aux_factories = []
        self._set_data(data, check=False)
        self.standard_name = standard_name
        self.long_name = long_name
        self.var_name = var_name
        self.units = units
        self.cell_methods = cell_methods
        self.attributes = attributes
        if dim_coords_and_dims:
            dims = set()
            for coord, dim in dim_coords_and_dims:
                self.add_dim_coord(coord, dim)
                dims.add(dim)
        for coord, dims in aux_coords_and_dims or ():
            self.add_aux_coord(coord, dims)
        if aux_factories:
            raise ShimUnsupported("aux factories")
        for cm, dims in cell_measures_and_dims or ():
            self.add_cell_measure(cm, dims)
        for av, dims in ancillary_variables_and_dims or ():
            self.add_ancillary_variable(av, dims)

    def __getattr__(self, name):
        if name in ("aggregated_by", "rolling_window", "intersection_", "lazy",
                    "derived_coords_", "add_aux_factory", "remove_aux_factory",
                    "subset_", "is_compatible_", "mesh"):
            raise ShimUnsupported("Cube." + name)
        raise AttributeError(
            "'Cube' object has no attribute {!r}".format(name))

    # metadata ---------------------------------------------------------------
    @property
    def metadata(self):
        return CubeMetadata(self.standard_name, self.long_name, self.var_name,
                            self.units, self.attributes, self.cell_methods)

    @metadata.setter
    def metadata(self, value):
        if isinstance(value, dict):
            value = CubeMetadata(**value)
        elif not hasattr(value, "_fields") and isinstance(value, tuple):
            value = CubeMetadata(*value)
        for name in CubeMetadata._fields:
            v = getattr(value, name)
            if name == "attributes":
                v = copy.deepcopy(v)
            setattr(self, name, v)

    @property
    def cell_methods(self):
        return self._cell_methods

    @cell_methods.setter
    def cell_methods(self, cell_methods):
        if not cell_methods:
            cell_methods = ()
        self._cell_methods = tuple(cell_methods)

    def add_cell_method(self, cell_method):
        self.cell_methods = self.cell_methods + (cell_method,)

    # data ---------------------------------------------------------------------
    def _set_data(self, data, check=True):
        if isinstance(data, np.ma.core.MaskedConstant):
            data = np.ma.array(data.data, mask=data.mask, dtype=data.dtype)
        if not is_lazy_data(data):
            if not np.ma.isMaskedArray(data):
                data = np.asarray(data)
        if check and self._data is not None and data.shape != self._data.shape and (
            self._data.shape or data.shape != (1,)
        ):
            raise ValueError("Require data with shape {!r}, got {!r}.".format(
                self._data.shape, data.shape))
        self._data = data

    @property
    def data(self):
        if is_lazy_data(self._data):
            data = as_concrete_data(self._data)
            if isinstance(data, np.ma.core.MaskedConstant):
                data = np.ma.array(data.data, mask=data.mask, dtype=data.dtype)
            self._data = data
        return self._data

    @data.setter
    def data(self, data):
        self._set_data(data)

    def core_data(self):
        return self._data

    def lazy_data(self):
        return as_lazy_data(self._data)

    def has_lazy_data(self):
        return is_lazy_data(self._data)

    def realise_data(self):
        return self.data

    @property
    def shape(self):
        return self._data.shape

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def ndim(self):
        return self._data.ndim

    # coordinates ----------------------------------------------------------------
    def _check_unique(self, coord, what):
        if self.coords(coord):
            raise ValueError("Duplicate coordinates are not permitted.")

    def add_aux_coord(self, coord, data_dims=None):
        if self.coords(coord):
            raise ValueError("Duplicate coordinates are not permitted.")
        self._add_unique_aux_coord(coord, data_dims)

    def _check_multi_dim_metadata(self, metadata, data_dims):
        if data_dims is not None:
            if isinstance(data_dims, (tuple, list, np.ndarray)):
                data_dims = tuple(int(d) for d in data_dims)
            else:
                data_dims = (int(data_dims),)
        else:
            data_dims = ()
        if data_dims:
            if len(data_dims) != metadata.ndim:
                raise ValueError(
                    "Invalid data dimensions: {} given, {} expected for {!r}.".format(
                        len(data_dims), metadata.ndim, metadata.name()))
            for i, dim in enumerate(data_dims):
                if dim < 0 or dim >= self.ndim:
                    raise ValueError(
                        "The cube does not have the specified dimension ({})".format(dim))
                if metadata.shape[i] != self.shape[dim]:
                    raise ValueError(
                        "Unequal lengths. Cube dimension {} => {}; metadata {!r} "
                        "dimension {} => {}.".format(
                            dim, self.shape[dim], metadata.name(), i,
                            metadata.shape[i]))
        elif metadata.shape != (1,):
            raise ValueError(
                "Missing data dimensions for multi-valued {} {!r}".format(
                    type(metadata).__name__, metadata.name()))
        return data_dims

    def _add_unique_aux_coord(self, coord, data_dims):
        data_dims = self._check_multi_dim_metadata(coord, data_dims)
        self._aux_coords_and_dims.append([coord, data_dims])

    def add_dim_coord(self, dim_coord, data_dim):
        if self.coords(dim_coord):
            raise ValueError(
                "The coordinate already exists on the cube. Duplicate coordinates are "
                "not permitted.")
        if isinstance(data_dim, (tuple, list)):
            if len(data_dim) != 1:
                raise ValueError("The supplied data dimension must be a single number.")
            data_dim = int(list(data_dim)[0])
        else:
            data_dim = int(data_dim)
        if data_dim < 0 or data_dim >= self.ndim:
            raise ValueError("The cube does not have the specified dimension "
                             "({})".format(data_dim))
        if self.coords(contains_dimension=data_dim, dim_coords=True):
            raise ValueError(
                "The data dimension %d is already associated with a dimension "
                "coordinate. (...)" % data_dim)
        if not isinstance(dim_coord, DimCoord):
            raise ValueError("The dim_coord may only be an instance of DimCoord.")
        if dim_coord.shape[0] != self.shape[data_dim]:
            raise ValueError(
                "Unequal lengths. Cube dimension {} => {}; coord {!r} => {}.".format(
                    data_dim, self.shape[data_dim], dim_coord.name(),
                    dim_coord.shape[0]))
        self._dim_coords_and_dims.append([dim_coord, data_dim])

    def remove_coord(self, coord):
        coord = self.coord(coord)
        self._remove(coord)

    def _remove(self, coord):
        self._dim_coords_and_dims = [
            [c, d] for c, d in self._dim_coords_and_dims if c is not coord]
        self._aux_coords_and_dims = [
            [c, d] for c, d in self._aux_coords_and_dims if c is not coord]

    def replace_coord(self, new_coord):
        old_coord = self.coord(new_coord)
        dims = self.coord_dims(old_coord)
        was_dimensioned = old_coord in self.dim_coords
        self._remove(old_coord)
        if was_dimensioned and isinstance(new_coord, DimCoord):
            self.add_dim_coord(new_coord, dims[0])
        else:
            self.add_aux_coord(new_coord, dims)

    def coord_dims(self, coord):
        name_provided = False
        if isinstance(coord, str):
            coord = self.coord(coord)
            name_provided = True
        for c, d in self._dim_coords_and_dims:
            if c is coord:
                return (d,)
        for c, d in self._aux_coords_and_dims:
            if c is coord:
                return tuple(d)
        if not name_provided:
            target = coord.metadata
            for c, d in self._dim_coords_and_dims:
                if metadata_equal(c.metadata, target):
                    return (d,)
            for c, d in self._aux_coords_and_dims:
                if metadata_equal(c.metadata, target):
                    return tuple(d)
        raise exceptions.CoordinateNotFoundError(coord.name())

    @property
    def dim_coords(self):
        return tuple(
            c for c, d in sorted(self._dim_coords_and_dims, key=lambda cd: cd[1]))

    @property
    def aux_coords(self):
        return tuple(c for c, d in sorted(
            self._aux_coords_and_dims, key=lambda cd: (tuple(cd[1]), cd[0].name())))

    @property
    def derived_coords(self):
        return ()

    @property
    def aux_factories(self):
        return ()

    def coords(self, name_or_coord=None, standard_name=None, long_name=None,
               var_name=None, attributes=None, axis=None, contains_dimension=None,
               dimensions=None, coord_system=None, dim_coords=None):
        from .util import guess_coord_axis

        result = []
        if dim_coords in (True, None):
            result += list(self.dim_coords)
        if dim_coords in (False, None):
            result += list(self.aux_coords)
        name = None
        coord = None
        if isinstance(name_or_coord, str):
            name = name_or_coord
        elif name_or_coord is not None:
            coord = name_or_coord
        if name is not None:
            result = [c for c in result if c.name() == name]
        if standard_name is not None:
            result = [c for c in result if c.standard_name == standard_name]
        if long_name is not None:
            result = [c for c in result if c.long_name == long_name]
        if var_name is not None:
            result = [c for c in result if c.var_name == var_name]
        if attributes is not None:
            if not isinstance(attributes, dict):
                raise ValueError("The attributes keyword was expecting a dictionary "
                                 "type, but got a %s instead." % type(attributes))
            result = [c for c in result
                      if all(k in c.attributes and c.attributes[k] == v
                             for k, v in attributes.items())]
        if coord is not None:
            target = getattr(coord, "metadata", coord)
            result = [c for c in result if metadata_equal(c.metadata, target)]
        if axis is not None:
            axis = axis.upper()
            result = [c for c in result if guess_coord_axis(c) == axis]
        if coord_system is not None:
            if isinstance(coord_system, type):
                result = [c for c in result if isinstance(c.coord_system, coord_system)]
            else:
                result = [c for c in result if c.coord_system == coord_system]
        if contains_dimension is not None:
            result = [c for c in result if contains_dimension in self.coord_dims(c)]
        if dimensions is not None:
            if not isinstance(dimensions, (tuple, list)):
                dimensions = [dimensions]
            dimensions = tuple(dimensions)
            result = [c for c in result if self.coord_dims(c) == dimensions]
        return result

    def coord(self, name_or_coord=None, standard_name=None, long_name=None,
              var_name=None, attributes=None, axis=None, contains_dimension=None,
              dimensions=None, coord_system=None, dim_coords=None):
        coords = self.coords(
            name_or_coord=name_or_coord, standard_name=standard_name,
            long_name=long_name, var_name=var_name, attributes=attributes, axis=axis,
            contains_dimension=contains_dimension, dimensions=dimensions,
            coord_system=coord_system, dim_coords=dim_coords)
        if len(coords) > 1:
            raise exceptions.CoordinateNotFoundError(
                "Expected to find exactly 1 coordinate, but found %s. They were: %s." % (
                    len(coords), ", ".join(c.name() for c in coords)))
        if len(coords) == 0:
            _name = name_or_coord
            if _name is not None and not isinstance(_name, str):
                _name = _name.name()
            bad_name = _name or standard_name or long_name or ""
            raise exceptions.CoordinateNotFoundError(
                f"Expected to find exactly 1 {bad_name!r} coordinate, but found none.")
        return coords[0]

    def coord_system(self, spec=None):
        if isinstance(spec, str) or spec is None:
            spec_name = spec
        else:
            spec_name = spec.__name__
        coord_systems = OrderedDict()
        for coord in self.coords():
            if coord.coord_system:
                coord_systems.setdefault(
                    type(coord.coord_system).__name__, coord.coord_system)
        if spec_name is None:
            for key in sorted(coord_systems.keys()):
                return coord_systems[key]
            return None
        return coord_systems.get(spec_name)

    # cell measures / ancillary variables ---------------------------------------
    def add_cell_measure(self, cell_measure, data_dims=None):
        self._cell_measures_and_dims.append(
            [cell_measure, self._check_multi_dim_metadata(cell_measure, data_dims)])

    def add_ancillary_variable(self, ancillary_variable, data_dims=None):
        self._ancillary_variables_and_dims.append(
            [ancillary_variable,
             self._check_multi_dim_metadata(ancillary_variable, data_dims)])

    def cell_measures(self, name=None):
        return [m for m, d in self._cell_measures_and_dims
                if name is None or m == name or m.name() == name]

    def ancillary_variables(self, name=None):
        return [m for m, d in self._ancillary_variables_and_dims
                if name is None or m.name() == name]

    def ancillary_variable(self, name=None):
        found = self.ancillary_variables(name)
        if len(found) != 1:
            raise exceptions.AncillaryVariableNotFoundError(
                "Expected to find exactly 1 %r ancillary_variable, but found %s." % (
                    name, len(found) or "none"))
        return found[0]

    def cell_measure(self, name=None):
        found = self.cell_measures(name)
        if len(found) != 1:
            raise exceptions.CellMeasureNotFoundError(str(name))
        return found[0]

    def remove_ancillary_variable(self, item):
        item = self.ancillary_variable(item) if isinstance(item, str) else item
        self._ancillary_variables_and_dims = [
            [m, d] for m, d in self._ancillary_variables_and_dims if m is not item]

    def ancillary_variable_dims(self, item):
        for m, d in self._ancillary_variables_and_dims:
            if m is item or m.name() == item:
                return d
        raise exceptions.AncillaryVariableNotFoundError(str(item))

    # indexing ---------------------------------------------------------------------
    def __getitem__(self, keys):
        full = _build_full_slice_given_keys(keys, self.ndim)
        norm = [_normalise_key(k, s) for k, s in zip(full, self.shape)]
        for dim, (k, size) in enumerate(zip(norm, self.shape)):
            if isinstance(k, int) and not -size <= k < size:
                raise IndexError("index %d is out of bounds for axis %d with size %d" % (
                    k, dim, size))
        new_dims = {}
        n = 0
        for dim, k in enumerate(norm):
            if isinstance(k, int):
                new_dims[dim] = None
            else:
                new_dims[dim] = n
                n += 1
        data = _index_array(self._data, tuple(norm))
        if not is_lazy_data(data):
            if isinstance(data, np.ma.core.MaskedConstant) or (
                np.ma.isMaskedArray(self._data) and not np.ma.isMaskedArray(data)
            ):
                if isinstance(data, np.ma.core.MaskedConstant):
                    data = np.ma.array(np.zeros((), self._data.dtype), mask=True)
                else:
                    data = np.ma.array(data)
            data = copy.deepcopy(data)
            if not isinstance(data, np.ndarray):
                data = np.asarray(data)
        cube = Cube(data)
        cube.metadata = self.metadata
        for coord, dim in self._dim_coords_and_dims:
            k = norm[dim]
            new = coord[(slice(k, None if k == -1 else k + 1)
                         if isinstance(k, int) else k,)] if not (
                isinstance(k, slice) and k == slice(None)) else coord.copy()
            if new_dims[dim] is None:
                cube._add_unique_aux_coord(new, ())
            else:
                if new.shape[0] > 0:
                    cube.add_dim_coord(new, new_dims[dim])
                else:
                    raise IndexError("Cannot index with zero length slice.")
        for coord, dims in self._aux_coords_and_dims:
            if not dims:
                cube._aux_coords_and_dims.append([coord.copy(), ()])
                continue
            ckeys = tuple(norm[d] for d in dims)
            pts = _index_array(coord.points, ckeys)
            bnds = None if not coord.has_bounds() else _index_array(coord.bounds, ckeys)
            odims = tuple(new_dims[d] for d in dims if new_dims[d] is not None)
            if not odims:
                pts = np.array(pts, ndmin=1)
                bnds = None if bnds is None else np.array(bnds, ndmin=2)
            new = coord.copy(points=np.array(pts), bounds=None if bnds is None
                             else np.array(bnds))
            cube._aux_coords_and_dims.append([new, odims])
        for store, src in (
            (cube._cell_measures_and_dims, self._cell_measures_and_dims),
            (cube._ancillary_variables_and_dims, self._ancillary_variables_and_dims),
        ):
            for item, dims in src:
                if not dims:
                    store.append([item.copy(), ()])
                    continue
                vals = _index_array(item.data, tuple(norm[d] for d in dims))
                odims = tuple(new_dims[d] for d in dims if new_dims[d] is not None)
                store.append([item.copy(np.array(vals, ndmin=1)), odims])
        return cube

    __iter__ = None

    def subset(self, coord):
        raise ShimUnsupported("Cube.subset")

    def extract(self, constraint):
        constraint, = list_of_constraints([constraint]) if not isinstance(
            constraint, list) else list_of_constraints(constraint)
        return constraint.extract(self)

    def _as_list_of_coords(self, names_or_coords):
        if not isinstance(names_or_coords, str) and isinstance(names_or_coords, Coord):
            names_or_coords = [names_or_coords]
        elif isinstance(names_or_coords, str):
            names_or_coords = [names_or_coords]
        coords = []
        for name_or_coord in names_or_coords:
            if isinstance(name_or_coord, (str, Coord)):
                coords.append(self.coord(name_or_coord))
            else:
                raise TypeError("Don't know how to convert %r to a coord" % (
                    name_or_coord,))
        return coords

    def slices_over(self, ref_to_slice):
        slice_dims = set()
        for ref in as_iterable(ref_to_slice):
            if isinstance(ref, (str, Coord)):
                slice_dims.update(self.coord_dims(self.coord(ref)))
            else:
                dim = int(ref)
                if dim < 0 or dim >= self.ndim:
                    raise ValueError("Requested an iterator over a dimension ({}) which "
                                     "does not exist.".format(dim))
                slice_dims.add(dim)
        opposite_dims = [d for d in range(self.ndim) if d not in slice_dims]
        return self.slices(opposite_dims, ordered=False)

    def slices(self, ref_to_slice, ordered=True):
        if not isinstance(ordered, bool):
            raise TypeError("ordered must be bool")
        slice_dims = []
        for ref in as_iterable(ref_to_slice):
            if isinstance(ref, (str, Coord)):
                coord = self.coord(ref)
                dims = self.coord_dims(coord)
                if not dims:
                    raise ValueError("Requested an iterator over a coordinate ({}) which "
                                     "does not describe a dimension.".format(coord.name()))
                slice_dims.extend(dims)
            else:
                dim = int(ref)
                if dim < 0 or dim >= self.ndim:
                    raise ValueError("Requested an iterator over a dimension ({}) which "
                                     "does not exist.".format(dim))
                slice_dims.append(dim)
        if len(set(slice_dims)) != len(slice_dims):
            raise ValueError("The requested coordinates are not orthogonal.")
        return _SliceIterator(self, slice_dims, ordered)

    def transpose(self, new_order=None):
        if new_order is None:
            new_order = list(range(self.ndim))[::-1]
        new_order = [int(i) for i in new_order]
        if len(new_order) != self.ndim:
            raise ValueError("Incorrect number of dimensions.")
        new_order = [i % self.ndim for i in new_order] if self.ndim else new_order
        if sorted(new_order) != list(range(self.ndim)):
            raise ValueError("repeated axis in transpose")
        self._data = self._data.transpose(new_order)
        mapping = {src: dst for dst, src in enumerate(new_order)}
        for cd in self._dim_coords_and_dims:
            cd[1] = mapping[cd[1]]
        for store in (self._aux_coords_and_dims, self._cell_measures_and_dims,
                      self._ancillary_variables_and_dims):
            for cd in store:
                cd[1] = tuple(mapping[d] for d in cd[1])

    # copy / equality ---------------------------------------------------------------
    def copy(self, data=None):
        if data is None:
            data = self._data if is_lazy_data(self._data) else copy.deepcopy(self._data)
        else:
            if not is_lazy_data(data):
                if isinstance(data, np.ma.core.MaskedConstant):
                    data = np.ma.array(data.data, mask=data.mask, dtype=data.dtype)
                data = data if np.ma.isMaskedArray(data) else np.asarray(data)
            if data.shape != self.shape:
                raise ValueError("Require data with shape {!r}, got {!r}.".format(
                    self.shape, data.shape))
        new = Cube(data)
        new.metadata = self.metadata
        new._dim_coords_and_dims = [[c.copy(), d] for c, d in self._dim_coords_and_dims]
        new._aux_coords_and_dims = [[c.copy(), d] for c, d in self._aux_coords_and_dims]
        new._cell_measures_and_dims = [
            [c.copy(), d] for c, d in self._cell_measures_and_dims]
        new._ancillary_variables_and_dims = [
            [c.copy(), d] for c, d in self._ancillary_variables_and_dims]
        return new

    def __copy__(self):
        raise copy.Error("Cube shallow-copy not allowed. Use deepcopy() or Cube.copy()")

    def __deepcopy__(self, memo):
        return self.copy()

    def __eq__(self, other):
        if not isinstance(other, Cube):
            return NotImplemented
        result = metadata_equal(self.metadata, other.metadata)
        if result:
            mine = {self._coord_key(c): (c, self.coord_dims(c)) for c in self.coords()}
            theirs = {other._coord_key(c): (c, other.coord_dims(c))
                      for c in other.coords()}
            if set(mine) != set(theirs):
                return False
            for key, (c, d) in mine.items():
                oc, od = theirs[key]
                if not (c == oc) or d != od:
                    return False
            if self.shape != other.shape:
                return False
            a, b = self.data, other.data
            if a.dtype.kind in "SUO" or b.dtype.kind in "SUO":
                return bool(np.array_equal(a, b))
            ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
            if np.ma.isMaskedArray(a) or np.ma.isMaskedArray(b):
                if not np.array_equal(ma, mb):
                    return False
                return bool(np.ma.allclose(a, b))
            return bool(np.allclose(a, b))
        return bool(result)

    def _coord_key(self, c):
        return (c.standard_name, c.long_name, c.var_name, str(c.units))

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else not result

    def __hash__(self):
        return hash(id(self))

    def is_compatible(self, other, ignore=None):
        compatible = (self.name() == other.name() and self.units == other.units
                      and self.cell_methods == other.cell_methods)
        if compatible:
            ignore = [ignore] if isinstance(ignore, str) else (ignore or ())
            for key in set(self.attributes) & set(other.attributes):
                if key not in ignore and np.any(
                    self.attributes[key] != other.attributes[key]
                ):
                    return False
        return compatible

    # display ---------------------------------------------------------------------
    def summary(self, shorten=False, name_padding=35):
        dims = []
        for dim in range(self.ndim):
            names = [c.name() for c in self.coords(dim_coords=True,
                                                   contains_dimension=dim)]
            dims.append("%s: %d" % (names[0] if names else "-- ", self.shape[dim]))
        header = "{} / ({}) ({})".format(
            self.name(), self.units, "; ".join(dims) if dims else "scalar cube")
        if shorten:
            return header
        lines = [header]
        lines.append("     Dimension coordinates:")
        for c in self.dim_coords:
            lines.append("          {}".format(c.name()))
        lines.append("     Auxiliary coordinates:")
        for c in self.aux_coords:
            if self.coord_dims(c):
                lines.append("          {}".format(c.name()))
        lines.append("     Scalar coordinates:")
        for c in self.aux_coords:
            if not self.coord_dims(c):
                lines.append("          {}: {}".format(c.name(), c.points[0]))
        lines.append("     Attributes:")
        for k, v in sorted(self.attributes.items()):
            lines.append("          {}: {}".format(k, v))
        if self.cell_methods:
            lines.append("     Cell methods:")
            for m in self.cell_methods:
                lines.append("          {}".format(m))
        return "\n".join(lines)

    def __str__(self):
        return self.summary()

    def __repr__(self):
        return "<iris 'Cube' of %s>" % self.summary(shorten=True)

    def xml(self, checksum=False, order=True, byteorder=True):
        out = ["<cube name=%r units=%r var_name=%r dtype=%s shape=%s>" % (
            self.standard_name or self.long_name, str(self.units), self.var_name,
            self.dtype, self.shape)]
        for k, v in sorted(self.attributes.items()):
            out.append("  <attribute %s=%s/>" % (k, v if not isinstance(v, np.ndarray)
                                                  else v.tolist()))
        for coord in sorted(self.coords(), key=lambda c: c.name()):
            out.append("  <coord type=%s %s %s %s units=%s dims=%s dtype=%s points=%s "
                       "bounds=%s cs=%s attrs=%s/>" % (
                           type(coord).__name__, coord.standard_name, coord.long_name,
                           coord.var_name, str(coord.units), self.coord_dims(coord),
                           coord.dtype, coord.points.tolist(),
                           None if not coord.has_bounds() else coord.bounds.tolist(),
                           coord.coord_system, sorted(coord.attributes.items())))
        for m in self.cell_methods:
            out.append("  <cellMethod %s/>" % m)
        out.append("  <data %s/>" % (_checksum(self.data) if checksum else ""))
        out.append("</cube>")
        return "\n".join(out)

    # units ------------------------------------------------------------------------
    def convert_units(self, unit):
        from cf_units import as_unit

        if self.units.is_unknown():
            raise exceptions.UnitConversionError(
                "Cannot convert from unknown units. The \"cube.units\" attribute may be "
                "set directly.")
        unit = as_unit(unit)
        if self.has_lazy_data():
            old, new = self.units, unit
            sample = old.convert(np.zeros((1,), dtype=self.dtype), new)
            self._data = self._data.map_blocks(
                lambda v: old.convert(v, new), dtype=sample.dtype)
        else:
            self._data_convert(unit)
        self.units = unit

    def _data_convert(self, unit):
        new = self.units.convert(self.data, unit)
        if not np.ma.isMaskedArray(new):
            new = np.asanyarray(new)
        self._data = new

    # processing ---------------------------------------------------------------------
    def collapsed(self, coords, aggregator, **kwargs):
        from .analysis import _collapse

        return _collapse(self, coords, aggregator, **kwargs)

    def interpolate(self, sample_points, scheme, collapse_scalar=True):
        coords, points = zip(*sample_points)
        interp = scheme.interpolator(self, coords)
        return interp(points, collapse_scalar=collapse_scalar)

    def regrid(self, grid, scheme):
        regridder = scheme.regridder(self, grid)
        return regridder(self)

    def intersection(self, *args, **kwargs):
        from .analysis import _intersection

        return _intersection(self, *args, **kwargs)

    # arithmetic ---------------------------------------------------------------------
    def __add__(self, other):
        from .analysis import maths

        return maths.add(self, other)

    __radd__ = __add__

    def __iadd__(self, other):
        from .analysis import maths

        return maths.add(self, other, in_place=True)

    def __sub__(self, other):
        from .analysis import maths

        return maths.subtract(self, other)

    def __rsub__(self, other):
        return (-self) + other

    def __isub__(self, other):
        from .analysis import maths

        return maths.subtract(self, other, in_place=True)

    def __mul__(self, other):
        from .analysis import maths

        return maths.multiply(self, other)

    __rmul__ = __mul__

    def __imul__(self, other):
        from .analysis import maths

        return maths.multiply(self, other, in_place=True)

    def __truediv__(self, other):
        from .analysis import maths

        return maths.divide(self, other)

    __div__ = __truediv__

    def __itruediv__(self, other):
        from .analysis import maths

        return maths.divide(self, other, in_place=True)

    def __rtruediv__(self, other):
        from .analysis import maths

        data = 1 / self.data * other
        return maths._result(self, data, self.units ** -1)

    def __pow__(self, power):
        from .analysis import maths

        return maths.exponentiate(self, power)

    def __neg__(self):
        return self.copy(data=-self.core_data())


class _SliceIterator(Iterator):
    def __init__(self, cube, slice_dims, ordered):
        self._cube = cube
        self._slice_dims = slice_dims
        other = [d for d in range(cube.ndim) if d not in slice_dims]
        self._other = other
        self._ndindex = np.ndindex(*[cube.shape[d] for d in other])
        self._ordered = ordered

    def __next__(self):
        index = next(self._ndindex)
        keys = [slice(None)] * self._cube.ndim
        for d, i in zip(self._other, index):
            keys[d] = i
        cube = self._cube[tuple(keys)]
        if self._ordered and len(self._slice_dims) > 1:
            ranked = sorted(self._slice_dims)
            order = [ranked.index(d) for d in self._slice_dims]
            if order != list(range(len(order))):
                cube.transpose(order)
        return cube

    next = __next__


_ = (AncillaryVariable, AuxCoord, CellMeasure, CellMethod, attributes_equal, namedtuple)
