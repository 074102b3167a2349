"""Constraints (stand-in for iris._constraints, iris 3.0 behaviour)."""
import operator
from collections.abc import Iterable, Mapping

import numpy as np

from . import exceptions


class Constraint:
    def __init__(self, name=None, cube_func=None, coord_values=None, **kwargs):
        if not (name is None or isinstance(name, str)):
            raise TypeError("name must be None or string, got %r" % name)
        if not (cube_func is None or callable(cube_func)):
            raise TypeError("cube_func must be None or callable, got %r" % cube_func)
        if not (coord_values is None or isinstance(coord_values, Mapping)):
            raise TypeError("coord_values must be None or a collections.Mapping, "
                            "got %r" % coord_values)
        coord_values = coord_values or {}
        duplicate = set(coord_values.keys()) & set(kwargs.keys())
        if duplicate:
            raise ValueError("Duplicate constraint: %r" % duplicate)
        self._name = name
        self._cube_func = cube_func
        self._coord_values = dict(coord_values)
        self._coord_values.update(kwargs)
        self._coord_constraints = [
            _CoordConstraint(k, v) for k, v in self._coord_values.items()]

    def __repr__(self):
        args = []
        if self._name:
            args.append(("name", self._name))
        if self._cube_func:
            args.append(("cube_func", self._cube_func))
        if self._coord_values:
            args.append(("coord_values", self._coord_values))
        return "Constraint(%s)" % ", ".join("%s=%r" % (k, v) for k, v in args)

    __str__ = __repr__

    def extract(self, cube):
        cim = self._CIM_extract(cube)
        slc = cim.as_slice()
        if isinstance(slc, tuple):
            return cube[slc]
        if slc is True:
            return cube
        return None

    def _CIM_extract(self, cube):
        cim = _ColumnIndexManager(cube.ndim)
        match = True
        if self._name:
            match = self._name in cube._names or self._name == cube.name()
        if match and self._cube_func:
            match = self._cube_func(cube)
        if match:
            for cc in self._coord_constraints:
                cim = cim & cc.extract(cube)
        else:
            cim.all_false()
        return cim

    def __and__(self, other):
        return ConstraintCombination(self, other, operator.__and__)

    def __rand__(self, other):
        return ConstraintCombination(other, self, operator.__and__)


class ConstraintCombination(Constraint):
    def __init__(self, lhs, rhs, operator):
        self.lhs = as_constraint(lhs)
        self.rhs = as_constraint(rhs)
        self.operator = operator

    def _coordless_match(self, cube):
        return self.operator(
            self.lhs._coordless_match(cube), self.rhs._coordless_match(cube))

    def __repr__(self):
        return "ConstraintCombination(%r, %r, %r)" % (self.lhs, self.rhs, self.operator)

    __str__ = __repr__

    def _CIM_extract(self, cube):
        return self.operator(self.lhs._CIM_extract(cube), self.rhs._CIM_extract(cube))


class _CoordConstraint:
    def __init__(self, coord_name, coord_thing):
        self.coord_name = coord_name
        self._coord_thing = coord_thing

    def extract(self, cube):
        from .coords import Cell, DimCoord

        cim = _ColumnIndexManager(cube.ndim)
        try:
            coord = cube.coord(self.coord_name)
        except exceptions.CoordinateNotFoundError:
            cim.all_false()
            return cim
        dims = cube.coord_dims(coord)
        if len(dims) > 1:
            raise exceptions.CoordinateMultiDimError(
                "Cannot apply constraints to multidimensional coordinates")
        try_quick = False
        if callable(self._coord_thing):
            call_func = self._coord_thing
        elif isinstance(self._coord_thing, Iterable) and not isinstance(
            self._coord_thing, (str, Cell)
        ):
            desired_values = list(self._coord_thing)

            def call_func(cell):
                return any(cell == v for v in desired_values)
        else:
            def call_func(c):
                return c == self._coord_thing

            try_quick = isinstance(coord, DimCoord) and not isinstance(
                self._coord_thing, Cell)
        if len(dims) == 0:
            cell = coord.cell(0)
            if not call_func(cell):
                cim.all_false()
            return cim
        r = np.array([bool(call_func(cell)) for cell in coord.cells()], dtype=bool)
        _ = try_quick
        cim[dims[0]] = r
        return cim


class _ColumnIndexManager:
    def __init__(self, ndims):
        self._column_arrays = [True] * ndims
        self.ndims = ndims
        self._false = False

    def all_false(self):
        self._false = True

    def __getitem__(self, key):
        return self._column_arrays[key]

    def __setitem__(self, key, value):
        self._column_arrays[key] = value

    def __and__(self, other):
        result = _ColumnIndexManager(self.ndims)
        result._false = self._false or other._false
        for i in range(self.ndims):
            a, b = self[i], other[i]
            if a is True:
                result[i] = b
            elif b is True:
                result[i] = a
            else:
                result[i] = a & b
        return result

    def as_slice(self):
        if self._false:
            return False
        result = [None] * self.ndims
        for dim, arr in enumerate(self._column_arrays):
            if isinstance(arr, np.ndarray):
                where_true = np.where(arr)[0]
                if len(where_true) == 0:
                    return False
                if where_true.shape == (1,):
                    result[dim] = int(where_true[0])
                else:
                    d = np.diff(where_true)
                    if np.all(d == d[0]):
                        result[dim] = slice(
                            int(where_true[0]), int(where_true[-1]) + 1, int(d[0]))
                    else:
                        result[dim] = tuple(int(w) for w in where_true)
            else:
                result[dim] = slice(None, None)
        if all(r == slice(None, None) for r in result):
            return True
        return tuple(result)


def as_constraint(thing):
    if isinstance(thing, Constraint):
        return thing
    if thing is None:
        return Constraint()
    if isinstance(thing, str):
        return Constraint(thing)
    raise TypeError("Cannot cast %r to a constraint." % thing)


def list_of_constraints(constraints):
    if isinstance(constraints, str) or not isinstance(constraints, Iterable):
        constraints = [constraints]
    return [as_constraint(c) for c in constraints]


class AttributeConstraint(Constraint):
    def __init__(self, **attributes):
        self._attributes = attributes
        super().__init__(cube_func=self._cube_func)

    def _cube_func(self, cube):
        for name, value in self._attributes.items():
            if name in cube.attributes:
                cube_attr = cube.attributes.get(name)
                if callable(value):
                    if not value(cube_attr):
                        return False
                elif cube_attr != value:
                    return False
            else:
                return False
        return True

    def __repr__(self):
        return "AttributeConstraint(%r)" % self._attributes


class NameConstraint(Constraint):
    def __init__(self, standard_name="none", long_name="none", var_name="none",
                 STASH="none"):
        self._n = dict(standard_name=standard_name, long_name=long_name,
                       var_name=var_name)
        super().__init__(cube_func=self._cube_func)

    def _cube_func(self, cube):
        for k, v in self._n.items():
            if v == "none":
                continue
            actual = getattr(cube, k)
            if callable(v):
                if actual is None or not v(actual):
                    return False
            elif actual != v:
                return False
        return True
