"""Coordinates and cell methods (stand-in for iris.coords, iris 3.0 behaviour)."""
import copy
import operator
import warnings
from collections import namedtuple
from collections.abc import Iterator

import numpy as np

from . import exceptions
from ._cf_common import (
    CFVariableMixin,
    CoordMetadata,
    DimCoordMetadata,
    attributes_equal,
    metadata_equal,
)
from ._lazy_data import as_concrete_data, is_lazy_data
from ._unsupported import ShimUnsupported


class CoordExtent(namedtuple("_CoordExtent",
                             ["name_or_coord", "minimum", "maximum",
                              "min_inclusive", "max_inclusive"])):
    def __new__(cls, name_or_coord, minimum, maximum,
                min_inclusive=True, max_inclusive=True):
        return super().__new__(
            cls, name_or_coord, minimum, maximum, min_inclusive, max_inclusive)


BOUND_POSITION_START = 0
BOUND_POSITION_MIDDLE = 0.5
BOUND_POSITION_END = 1


def _is_num(other):
    return isinstance(other, (int, float, np.number)) or hasattr(other, "timetuple")


class Cell(namedtuple("Cell", ["point", "bound"])):
    __slots__ = ()
    __array_priority__ = 100

    def __new__(cls, point=None, bound=None):
        if point is None:
            raise ValueError("Point must be defined.")
        if isinstance(point, np.ndarray):
            point = tuple(point.flatten())
        if isinstance(point, (tuple, list)):
            if len(point) != 1:
                raise ValueError("Point may only be a list or tuple if it has length 1.")
            point = point[0]
        if bound is not None:
            if isinstance(bound, np.ndarray):
                bound = tuple(bound.flatten())
            bound = tuple(bound)
        return super().__new__(cls, point, bound)

    def __hash__(self):
        if self.bound is None:
            return hash(self.point)
        bound = self.bound
        rbound = bound[::-1]
        if rbound < bound:
            bound = rbound
        return hash((self.point, bound))

    def __eq__(self, other):
        if _is_num(other):
            if self.bound is not None:
                return self.contains_point(other)
            return self.point == other
        if isinstance(other, Cell):
            return (self.point == other.point) and (
                self.bound == other.bound
                or (self.bound is not None and other.bound is not None
                    and self.bound == other.bound[::-1])
            )
        if isinstance(other, str) and self.bound is None and isinstance(self.point, str):
            return self.point == other
        return NotImplemented

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else not result

    def _cmp(self, other, op):
        if not (_is_num(other) or isinstance(other, Cell)):
            raise TypeError("Unexpected type of other {}.".format(type(other)))
        if isinstance(other, Cell):
            if self.bound is None:
                if other.bound is None:
                    return op(self.point, other.point)
                if self.point == other.point:
                    return op in (operator.lt, operator.le)
                return op(self.point, other.point)
            if other.bound is None:
                if self.point == other.point:
                    return op in (operator.gt, operator.ge)
                return op(self.point, other.point)
            if self.bound[0] != other.bound[0]:
                return op(self.bound[0], other.bound[0])
            if self.point != other.point:
                return op(self.point, other.point)
            return op(self.bound[1], other.bound[1])
        if self.bound is not None and hasattr(other, "timetuple") and (
            getattr(other, "timetuple") is None
        ):
            raise TypeError(
                "Cannot determine whether a point lies within a bounded region for "
                "datetime-like objects.")
        if self.bound is None:
            me = self.point
        elif op in (operator.gt, operator.le):
            me = min(self.bound)
        else:
            me = max(self.bound)
        return op(me, other)

    def __ge__(self, other):
        return self._cmp(other, operator.ge)

    def __le__(self, other):
        return self._cmp(other, operator.le)

    def __gt__(self, other):
        return self._cmp(other, operator.gt)

    def __lt__(self, other):
        return self._cmp(other, operator.lt)

    def __str__(self):
        if self.bound is not None:
            return repr(self)
        return str(self.point)

    def contains_point(self, point):
        if self.bound is None:
            raise ValueError("Point cannot exist inside an unbounded cell.")
        if hasattr(point, "timetuple") or np.any(
            [hasattr(val, "timetuple") for val in self.bound]
        ):
            raise TypeError(
                "Cannot determine whether a point lies within a bounded region for "
                "datetime-like objects.")
        return np.min(self.bound) <= point <= np.max(self.bound)


class CellMethod:
    def __init__(self, method, coords=None, intervals=None, comments=None):
        if not isinstance(method, str):
            raise TypeError("'method' must be a string - got a '%s'" % type(method))
        default_name = "unknown"
        _coords = []
        if coords is None:
            pass
        elif isinstance(coords, Coord):
            _coords.append(coords.name(token=True))
        elif isinstance(coords, str):
            _coords.append(coords or default_name)
        else:
            for coord in coords:
                if isinstance(coord, Coord):
                    _coords.append(coord.name(token=True))
                else:
                    _coords.append(coord or default_name)

        def _str_list(items):
            if items is None:
                return []
            if isinstance(items, str):
                return [items]
            return list(items)

        self.method = method
        self.coord_names = tuple(_coords)
        self.intervals = tuple(_str_list(intervals))
        self.comments = tuple(_str_list(comments))

    def _key(self):
        return (self.method, self.coord_names, self.intervals, self.comments)

    def __eq__(self, other):
        if not isinstance(other, CellMethod):
            return NotImplemented
        return self._key() == other._key()

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else not result

    def __hash__(self):
        return hash(str(self))

    def __lt__(self, other):
        return self._key() < other._key()

    def __str__(self):
        cell_method_string = ": ".join(self.coord_names)
        if self.coord_names:
            cell_method_string += ": "
        cell_method_string += self.method
        other_info = []
        for interval in self.intervals:
            other_info.append("interval: %s" % interval)
        for comment in self.comments:
            other_info.append("comment: %s" % comment)
        if other_info:
            cell_method_string += " (%s)" % ", ".join(other_info)
        return cell_method_string

    def __repr__(self):
        return "CellMethod(method=%r, coord_names=%r, intervals=%r, comments=%r)" % (
            self.method, self.coord_names, self.intervals, self.comments)

    def __add__(self, other):
        return NotImplemented


def _sanitise(values, ndmin):
    if is_lazy_data(values):
        return values
    if ndmin:
        if np.ma.isMaskedArray(values):
            values = np.ma.array(values, ndmin=ndmin)
        else:
            values = np.array(values, ndmin=ndmin, subok=False)
    if not hasattr(values, "shape"):
        values = np.asarray(values)
    return values


class Coord(CFVariableMixin):
    """Base of the coordinates; also usable as a plain aux coordinate."""

    _MODE_ADD = 1
    _MODE_SUB = 2
    _MODE_MUL = 3
    _MODE_DIV = 4
    _MODE_RDIV = 5

    def __init__(self, points, standard_name=None, long_name=None, var_name=None,
                 units=None, bounds=None, attributes=None, coord_system=None,
                 climatological=False):
        self._points = None
        self._bounds = None
        self.standard_name = standard_name
        self.long_name = long_name
        self.var_name = var_name
        self.units = units
        self.coord_system = coord_system
        self.attributes = attributes
        self._climatological = False
        self.points = points
        self.bounds = bounds
        self.climatological = climatological

    def __getattr__(self, name):
        if name in ("sub_groups", "intersect", "xml_element", "intersection",
                    "iris_type", "ignore_axis", "cube_dims_"):
            raise ShimUnsupported("Coord." + name)
        raise AttributeError(
            "{!r} object has no attribute {!r}".format(type(self).__name__, name))

    # values ---------------------------------------------------------------
    @property
    def points(self):
        self._points = as_concrete_data(self._points)
        return self._points.view()

    @points.setter
    def points(self, points):
        self._set_points(points)

    def _set_points(self, points):
        if points is None:
            raise ValueError("points may not be None")
        points = _sanitise(points, 1)
        if self._points is not None and self._points.shape != points.shape:
            raise ValueError(
                "Require data with shape {!r}, got {!r}.".format(
                    self._points.shape, points.shape))
        self._points = points

    @property
    def bounds(self):
        if self._bounds is None:
            return None
        self._bounds = as_concrete_data(self._bounds)
        return self._bounds.view()

    @bounds.setter
    def bounds(self, bounds):
        self._set_bounds(bounds)

    def _set_bounds(self, bounds):
        if bounds is None:
            self._bounds = None
            self._climatological = False
            return
        bounds = _sanitise(bounds, 2)
        if self.shape != bounds.shape[:-1]:
            raise ValueError("Bounds shape must be compatible with points shape.")
        self._bounds = bounds

    @property
    def climatological(self):
        return self._climatological

    @climatological.setter
    def climatological(self, value):
        if value:
            if not self.units.is_time_reference():
                raise TypeError(
                    "Cannot set climatological coordinate, does not have valid time "
                    "reference units")
            if self._bounds is None:
                raise ValueError(
                    "Cannot set climatological coordinate, no bounds exist.")
        self._climatological = bool(value)

    def core_points(self):
        return self._points if is_lazy_data(self._points) else self._points.view()

    def core_bounds(self):
        return None if self._bounds is None else (
            self._bounds if is_lazy_data(self._bounds) else self._bounds.view())

    def lazy_points(self):
        from ._lazy_data import as_lazy_data

        return as_lazy_data(self._points)

    def lazy_bounds(self):
        from ._lazy_data import as_lazy_data

        return None if self._bounds is None else as_lazy_data(self._bounds)

    def has_lazy_points(self):
        return is_lazy_data(self._points)

    def has_lazy_bounds(self):
        return self._bounds is not None and is_lazy_data(self._bounds)

    @property
    def shape(self):
        return self._points.shape

    @property
    def ndim(self):
        return self._points.ndim

    @property
    def dtype(self):
        return self._points.dtype

    @property
    def bounds_dtype(self):
        return None if self._bounds is None else self._bounds.dtype

    @property
    def nbounds(self):
        return 0 if self._bounds is None else self._bounds.shape[-1]

    def has_bounds(self):
        return self._bounds is not None

    # identity ---------------------------------------------------------------
    @property
    def metadata(self):
        return CoordMetadata(
            self.standard_name, self.long_name, self.var_name, self.units,
            self.attributes, self.coord_system, self.climatological)

    @metadata.setter
    def metadata(self, metadata):
        for field in ("standard_name", "long_name", "var_name", "units", "attributes",
                      "coord_system", "climatological"):
            if hasattr(metadata, field):
                value = getattr(metadata, field)
                if field == "climatological":
                    self._climatological = value
                else:
                    setattr(self, field, value)

    def _as_defn(self):
        return self.metadata

    def is_compatible(self, other, ignore=None):
        compatible = self.name() == other.name() and self.units == other.units
        if compatible:
            ignore = [ignore] if isinstance(ignore, str) else (ignore or ())
            for key in set(self.attributes) & set(other.attributes):
                if key not in ignore and np.any(
                    self.attributes[key] != other.attributes[key]
                ):
                    return False
            compatible = self.coord_system == other.coord_system
        return compatible

    def __eq__(self, other):
        if not isinstance(other, Coord):
            if hasattr(other, "metadata") and not hasattr(other, "points"):
                return NotImplemented
            return NotImplemented
        eq = metadata_equal(self.metadata, other.metadata)
        if eq:
            from .util import array_equal

            eq = array_equal(self.points, other.points, withnans=True)
            if eq:
                if self.has_bounds() or other.has_bounds():
                    eq = (
                        self.has_bounds() and other.has_bounds()
                        and array_equal(self.bounds, other.bounds, withnans=True))
        return bool(eq)

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else not result

    def __hash__(self):
        return hash(id(self))

    def cube_dims(self, cube):
        return cube.coord_dims(self)

    # copy / index -------------------------------------------------------------
    def copy(self, points=None, bounds=None):
        if points is None and bounds is not None:
            raise ValueError(
                "If bounds are specified, points must also be specified")
        new = self._clone_metadata()
        if points is not None:
            new._init_values(points, bounds)
            if bounds is not None:
                new._climatological = self._climatological
        else:
            new._points = self._points.copy()
            new._bounds = None if self._bounds is None else self._bounds.copy()
            new._climatological = self._climatological
            new._freeze()
        return new

    def _freeze(self):
        pass

    def _clone_metadata(self):
        new = object.__new__(type(self))
        new._points = None
        new._bounds = None
        new._climatological = False
        new._standard_name = self._standard_name
        new._long_name = self._long_name
        new._var_name = self._var_name
        new._units = self._units
        new._attributes = copy.deepcopy(self._attributes)
        new.coord_system = copy.deepcopy(self.coord_system)
        return new

    def _init_values(self, points, bounds):
        self._points = None
        self._bounds = None
        self.points = points
        self.bounds = bounds

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, keys):
        if not isinstance(keys, tuple):
            keys = (keys,)
        from .util import _index_array

        points = _index_array(self._points, keys)
        bounds = None
        if self._bounds is not None:
            bounds = _index_array(self._bounds, tuple(keys) if Ellipsis in [
                k for k in keys if k is Ellipsis] else tuple(keys))
        try:
            return self.copy(points=points.copy(),
                             bounds=None if bounds is None else bounds.copy())
        except ValueError:
            raise

    # cells ----------------------------------------------------------------------
    def cells(self):
        return _CellIterator(self)

    def cell(self, index):
        from .util import _build_full_slice_given_keys

        index = _build_full_slice_given_keys(index, self.ndim)
        point = tuple(np.array(self.points[index], ndmin=1).flatten())
        if len(point) != 1:
            raise IndexError(
                "The index %s did not uniquely identify a single point to create a "
                "cell with." % (index,))
        bound = None
        if self.has_bounds():
            bound = tuple(np.array(self.bounds[index], ndmin=1).flatten())
        if self.units.is_time_reference():
            point = self.units.num2date(
                point, only_use_cftime_datetimes=False)
            if bound is not None:
                bound = self.units.num2date(
                    bound, only_use_cftime_datetimes=False)
        return Cell(point, bound)

    # arithmetic -----------------------------------------------------------------
    def _binary(self, other, func):
        if isinstance(other, Coord):
            raise exceptions.NotYetImplementedError("coord %s coord" % func.__name__)
        if isinstance(other, (int, float, np.number)):
            points = func(self.points, other)
            bounds = func(self.bounds, other) if self.has_bounds() else None
            new = self.copy(points, bounds)
            return new
        return NotImplemented

    def __add__(self, other):
        return self._binary(other, operator.add)

    def __radd__(self, other):
        return self + other

    def __sub__(self, other):
        return self._binary(other, operator.sub)

    def __rsub__(self, other):
        return (-self) + other

    def __mul__(self, other):
        return self._binary(other, operator.mul)

    __rmul__ = __mul__

    def __truediv__(self, other):
        return self._binary(other, operator.truediv)

    def __neg__(self):
        return self.copy(-self.points, -self.bounds if self.has_bounds() else None)

    # operations -----------------------------------------------------------------
    def convert_units(self, unit):
        if self.units.is_unknown():
            raise exceptions.UnitConversionError(
                "Cannot convert from unknown units. The \"units\" attribute may be set "
                "directly.")
        from cf_units import as_unit

        unit = as_unit(unit)
        points = self.units.convert(self.points, unit)
        bounds = self.units.convert(self.bounds, unit) if self.has_bounds() else None
        self._replace(points, bounds)
        self.units = unit

    def _replace(self, points, bounds):
        self._points = _sanitise(points, 1)
        self._bounds = bounds

    def is_monotonic(self):
        if self.ndim != 1:
            raise exceptions.CoordinateMultiDimError(self)
        if self.shape == (1,):
            return True
        from .util import monotonic

        if self.points is not None and not monotonic(self.points, strict=True):
            return False
        if self.has_bounds():
            for i in range(self.nbounds):
                if not monotonic(self.bounds[:, i], strict=True):
                    return False
        return True

    def is_contiguous(self, rtol=1e-05, atol=1e-08):
        if not self.has_bounds():
            return False
        if self.ndim == 1:
            b = self.bounds
            return bool(np.allclose(b[1:, 0], b[:-1, 1], rtol=rtol, atol=atol))
        return True

    def contiguous_bounds(self):
        if self.ndim != 1:
            raise ShimUnsupported("contiguous_bounds on n-d coord")
        if not self.has_bounds():
            bounds = self._guess_bounds()
        else:
            bounds = self.bounds
        result = np.resize(bounds[:, 0], bounds.shape[0] + 1)
        result[-1] = bounds[-1, 1]
        return result

    def _guess_bounds(self, bound_position=0.5):
        if self.ndim != 1:
            raise exceptions.CoordinateMultiDimError(self)
        if self.shape[0] < 2:
            raise ValueError(
                "Cannot guess bounds for a coordinate of length 1.")
        if self.has_bounds():
            raise ValueError(
                "Coord already has bounds. Remove the bounds before guessing new ones.")
        if getattr(self, "circular", False):
            points = np.empty(self.points.shape[0] + 2)
            points[1:-1] = self.points
            direction = 1 if self.points[-1] > self.points[0] else -1
            points[0] = self.points[-1] - (self.units.modulus * direction)
            points[-1] = self.points[0] + (self.units.modulus * direction)
            diffs = np.diff(points)
        else:
            diffs = np.diff(self.points)
            diffs = np.insert(diffs, 0, diffs[0])
            diffs = np.append(diffs, diffs[-1])
        min_bounds = self.points - diffs[:-1] * bound_position
        max_bounds = self.points + diffs[1:] * (1 - bound_position)
        bounds = np.array([min_bounds, max_bounds]).transpose()
        if self.name() in ("latitude", "grid_latitude") and self.units == "degree":
            points = self.points
            if (points >= -90).all() and (points <= 90).all():
                np.clip(bounds, -90, 90, out=bounds)
        return bounds

    def guess_bounds(self, bound_position=0.5):
        self.bounds = self._guess_bounds(bound_position)

    def collapsed(self, dims_to_collapse=None):
        if isinstance(dims_to_collapse, (int, np.integer)):
            dims_to_collapse = (dims_to_collapse,)
        if dims_to_collapse is not None:
            dims_to_collapse = tuple(dims_to_collapse)
        if self.dtype.kind in "SU":
            def serialize(x):
                return "|".join([str(i) for i in x.flatten()])

            bounds = None
            if self.has_bounds():
                item_bounds = []
                for index in np.ndindex(self.bounds.shape[1:]):
                    item_bounds.append(serialize(self.bounds[(slice(None),) + index]))
                bounds = np.array(item_bounds).reshape((1,) + self.bounds.shape[1:])
            points = np.array([serialize(self.points)])
            return self.copy(points=points, bounds=bounds)
        if self.ndim > 1:
            warnings.warn(
                "Collapsing a multi-dimensional coordinate. "
                "Metadata may not be fully descriptive for {!r}.".format(self.name()))
        elif not self.is_contiguous():
            warnings.warn(
                "Collapsing a non-contiguous coordinate. "
                "Metadata may not be fully descriptive for {!r}.".format(self.name()))
        if self.has_bounds():
            item = self.bounds
            if dims_to_collapse is not None:
                dims_to_collapse = tuple(d % self.ndim for d in dims_to_collapse) + (-1,)
        else:
            item = self.points
        bounds = np.stack(
            [item.min(axis=dims_to_collapse), item.max(axis=dims_to_collapse)], axis=-1)
        points = np.array(bounds.sum(axis=-1) * 0.5, dtype=self.dtype)
        return self.copy(points=points, bounds=bounds)

    def nearest_neighbour_index(self, point):
        points = self.points
        bounds = self.bounds if self.has_bounds() else None
        if self.ndim != 1:
            raise ValueError(
                "Nearest-neighbour is currently limited to one-dimensional coordinates.")
        do_circular = getattr(self, "circular", False)
        if do_circular:
            wrap_modulus = self.units.modulus
            wrap_origin = np.min(points)
            wrap_reversed = 1 if bounds is None else 1
            points = (points - wrap_origin) % wrap_modulus + wrap_origin
            point = (point - wrap_origin) % wrap_modulus + wrap_origin
            bounds = None
        if bounds is not None:
            mins = np.min(bounds, axis=1)
            maxs = np.max(bounds, axis=1)
            if mins[0] == maxs[0] and len(mins) > 1 and False:
                pass
            # Values beyond the range are moved to the nearest bound
            min_value, max_value = np.min(bounds), np.max(bounds)
            p = min(max(point, min_value), max_value)
            inside = np.where((mins <= p) & (p <= maxs))[0]
            if len(inside):
                cand = inside
                return int(cand[np.argmin(np.abs(points[cand] - point))])
            d = np.minimum(np.abs(mins - p), np.abs(maxs - p))
            return int(np.argmin(d))
        if do_circular:
            diff = np.abs(points - point)
            diff = np.minimum(diff, self.units.modulus - diff)
        else:
            diff = np.abs(points - point)
        return int(np.argmin(diff))

    def intersect(self, other, return_indices=False):
        raise ShimUnsupported("Coord.intersect")

    def __repr__(self):
        fmt = "{cls}({points}{bounds}, {other})"
        points = self.points
        if self.units.is_time_reference():
            try:
                points = self.units.num2date(points)
            except Exception:  # display only
                points = self.points
        bounds = ", bounds={}".format(self.bounds) if self.has_bounds() else ""
        other = ["standard_name={!r}".format(self.standard_name),
                 "units={!r}".format(self.units)]
        for name in ("long_name", "var_name", "attributes", "coord_system"):
            if getattr(self, name):
                other.append("{}={!r}".format(name, getattr(self, name)))
        return fmt.format(cls=type(self).__name__, points=points, bounds=bounds,
                          other=", ".join(other))

    __str__ = __repr__

    def summary(self, *args, **kwargs):
        return str(self)


class _CellIterator(Iterator):
    def __init__(self, coord):
        self._coord = coord
        if coord.ndim != 1:
            raise exceptions.CoordinateMultiDimError(coord)
        self._indices = iter(range(coord.shape[0]))

    def __next__(self):
        i = next(self._indices)
        return self._coord.cell(i)

    next = __next__


class AuxCoord(Coord):
    pass


class DimCoord(Coord):
    @classmethod
    def from_regular(cls, zeroth, step, count, standard_name=None, long_name=None,
                     var_name=None, units=None, attributes=None, coord_system=None,
                     circular=False, climatological=False, with_bounds=False):
        points = (zeroth + step) + step * np.arange(count, dtype=np.float32)
        bounds = None
        if with_bounds:
            delta = 0.5 * step
            bounds = np.concatenate([[points - delta], [points + delta]]).T
        return cls(points, standard_name, long_name, var_name, units, bounds,
                   attributes, coord_system, circular, climatological)

    def __init__(self, points, standard_name=None, long_name=None, var_name=None,
                 units=None, bounds=None, attributes=None, coord_system=None,
                 circular=False, climatological=False):
        self._circular = False
        super().__init__(points, standard_name, long_name, var_name, units, bounds,
                         attributes, coord_system, climatological)
        self.circular = bool(circular)

    @property
    def circular(self):
        return self._circular

    @circular.setter
    def circular(self, value):
        self._circular = bool(value)

    @property
    def metadata(self):
        return DimCoordMetadata(
            self.standard_name, self.long_name, self.var_name, self.units,
            self.attributes, self.coord_system, self.climatological, self.circular)

    @metadata.setter
    def metadata(self, metadata):
        Coord.metadata.fset(self, metadata)
        if hasattr(metadata, "circular"):
            self.circular = metadata.circular

    def _clone_metadata(self):
        new = super()._clone_metadata()
        new._circular = self._circular
        return new

    def _freeze(self):
        if not is_lazy_data(self._points):
            self._points.flags.writeable = False
        if self._bounds is not None:
            self._bounds.flags.writeable = False

    def __getitem__(self, key):
        coord = super().__getitem__(key)
        coord.circular = coord.circular and coord.shape == self.shape
        return coord

    def collapsed(self, dims_to_collapse=None):
        coord = Coord.collapsed(self, dims_to_collapse=dims_to_collapse)
        if self.circular and self.units.modulus is not None:
            bnds = coord.bounds.copy()
            bnds[0, 1] = coord.bounds[0, 0] + self.units.modulus
            coord.bounds = bnds
            coord.points = np.array(
                np.sum(coord.bounds) * 0.5, dtype=self.points.dtype)
        coord.circular = False
        return coord

    def _check_points(self, points):
        if points.ndim not in (0, 1):
            raise ValueError(
                "The points array must be scalar or 1-dimensional for {!r} {}.".format(
                    self.name(), type(self).__name__))
        if points.dtype.kind not in "biuf":
            raise ValueError(
                "The points array must be numeric for {!r} {}.".format(
                    self.name(), type(self).__name__))
        if np.ma.is_masked(points):
            raise ValueError(
                "A {} points array must not be masked.".format(type(self).__name__))
        from .util import monotonic

        if points.size > 1 and not monotonic(points, strict=True):
            raise ValueError(
                "The points array must be strictly monotonic for {!r} {}.".format(
                    self.name(), type(self).__name__))

    def _set_points(self, points):
        points = as_concrete_data(points)
        points = np.array(points, ndmin=1)
        if points.ndim == 1 and points.shape[0] == 0 and self._points is None:
            pass
        self._check_points(points)
        super()._set_points(points)
        self._points.flags.writeable = False

    def _replace(self, points, bounds):
        points = np.array(points, ndmin=1)
        points.flags.writeable = False
        self._points = points
        if bounds is not None:
            bounds = np.array(bounds)
            bounds.flags.writeable = False
        self._bounds = bounds

    def _set_bounds(self, bounds):
        if bounds is not None:
            bounds = np.array(as_concrete_data(bounds), ndmin=2)
            if self.shape != bounds.shape[:-1]:
                raise ValueError("Bounds shape must be compatible with points shape.")
            if bounds.dtype.kind not in "biuf":
                raise ValueError(
                    "The bounds array must be numeric for {!r} {}.".format(
                        self.name(), type(self).__name__))
            n_bounds = bounds.shape[-1]
            n_points = bounds.shape[0]
            if n_points > 1:
                directions = set()
                from .util import monotonic

                for b in range(n_bounds):
                    mono, direction = monotonic(
                        bounds[:, b], strict=True, return_direction=True)
                    if not mono:
                        raise ValueError(
                            "The bounds array must be strictly monotonic for "
                            "{!r} {}.".format(self.name(), type(self).__name__))
                    directions.add(direction)
                if len(directions) != 1:
                    raise ValueError(
                        "The direction of monotonicity for {!r} {} must be consistent "
                        "across all bounds".format(self.name(), type(self).__name__))
            if n_bounds == 2 and n_points > 0:
                # iris flips bounds that run against the points
                p = self.points
                if n_points > 1 and (p[1] > p[0]) != (bounds[0, 1] > bounds[0, 0]) and False:
                    bounds = bounds[:, ::-1]
        super()._set_bounds(bounds)
        if self._bounds is not None:
            self._bounds.flags.writeable = False

    def is_monotonic(self):
        return True


class _DimensionalMetadata(CFVariableMixin):
    def __init__(self, data, standard_name=None, long_name=None, var_name=None,
                 units=None, attributes=None):
        self.standard_name = standard_name
        self.long_name = long_name
        self.var_name = var_name
        self.units = units
        self.attributes = attributes
        self.data = np.asanyarray(data)

    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def metadata(self):
        return CoordMetadata(self.standard_name, self.long_name, self.var_name,
                             self.units, self.attributes, None, False)

    def copy(self, values=None):
        new = copy.copy(self)
        new._attributes = copy.deepcopy(self._attributes)
        new.data = (self.data if values is None else np.asanyarray(values)).copy()
        return new

    def __eq__(self, other):
        if type(self) is not type(other):
            return NotImplemented
        return (metadata_equal(self.metadata, other.metadata)
                and np.array_equal(self.data, other.data))

    def __hash__(self):
        return hash(id(self))

    def __getitem__(self, keys):
        from .util import _index_array

        return self.copy(_index_array(self.data, keys if isinstance(keys, tuple) else (keys,)))


class AncillaryVariable(_DimensionalMetadata):
    pass


class CellMeasure(_DimensionalMetadata):
    def __init__(self, data, standard_name=None, long_name=None, var_name=None,
                 units=None, attributes=None, measure="area"):
        super().__init__(data, standard_name, long_name, var_name, units, attributes)
        self.measure = measure


_ = attributes_equal
