"""Cube arithmetic (stand-in for iris.analysis.maths, iris 3.0 behaviour)."""
import operator

import numpy as np

from .._cf_common import attributes_equal, metadata_equal, values_equal
from ..exceptions import NotYetImplementedError


def _assert_is_cube(cube):
    from ..cube import Cube

    if not isinstance(cube, Cube):
        raise TypeError('The "cube" argument must be an instance of iris.cube.Cube.')


def _sanitise(cube, unit):
    cube.rename(None)
    cube.cell_methods = None
    cube.attributes.pop("STASH", None)
    cube.units = unit
    return cube


def _result(cube, data, unit):
    return _sanitise(cube.copy(data=data), unit)


def _dim_keys(cube):
    keys = []
    for d in range(cube.ndim):
        found = cube.coords(dim_coords=True, contains_dimension=d)
        keys.append(found[0].name() if found else None)
    return keys


def _resolve(lhs, rhs):
    """Broadcast two cubes against each other; returns (template, ldata, rdata)."""
    swap = rhs.ndim > lhs.ndim
    big, small = (rhs, lhs) if swap else (lhs, rhs)
    bkeys, skeys = _dim_keys(big), _dim_keys(small)
    targets = [None] * small.ndim
    free = list(range(big.ndim))
    for i, k in enumerate(skeys):
        if k is not None and k in bkeys:
            targets[i] = bkeys.index(k)
            free.remove(targets[i])
    for i in reversed(range(small.ndim)):
        if targets[i] is None:
            # match trailing free dimension of the same length
            cands = [f for f in reversed(free)
                     if big.shape[f] == small.shape[i] or small.shape[i] == 1]
            if not cands:
                raise ValueError(
                    "cannot resolve cubes of shapes %s and %s" % (lhs.shape, rhs.shape))
            targets[i] = cands[0]
            free.remove(cands[0])
    for i, t in enumerate(targets):
        b = big.coords(dim_coords=True, contains_dimension=t)
        s = small.coords(dim_coords=True, contains_dimension=i)
        if b and s and b[0].name() == s[0].name() and b[0].shape == s[0].shape:
            if not np.allclose(b[0].points, s[0].points):
                raise ValueError(
                    "Coordinate %r has different points for the LHS cube and RHS cube."
                    % b[0].name())
    order = np.argsort(targets) if small.ndim else []
    sdata = small.core_data()
    if small.ndim:
        sdata = sdata.transpose([int(o) for o in order])
        shape = [1] * big.ndim
        for o in order:
            shape[targets[int(o)]] = small.shape[int(o)]
        sdata = sdata.reshape(tuple(shape))
    template = big
    drop = []
    for coord in big.coords():
        bdims = big.coord_dims(coord)
        match = [c for c in small.coords() if c.name() == coord.name()]
        if not match:
            if not bdims:
                pass
            continue
        m = match[0]
        if bdims and small.coord_dims(m) and m.shape == coord.shape:
            if not np.array_equal(m.points, coord.points) and coord in big.aux_coords:
                drop.append(coord.name())
        elif not bdims and not small.coord_dims(m):
            if not metadata_equal(m.metadata, coord.metadata, ignore=("attributes",)) or (
                not np.array_equal(m.points, coord.points)
            ):
                drop.append(coord.name())
    ldata, rdata = (sdata, big.core_data()) if swap else (big.core_data(), sdata)
    return template, drop, ldata, rdata


def _binary(op, cube, other, unit, in_place=False, dim=None):
    from ..coords import Coord
    from ..cube import Cube

    if isinstance(other, Cube):
        template, drop, ldata, rdata = _resolve(cube, other)
        data = op(ldata, rdata)
        # lenient combination: everything that does not conflict is kept
        attrs = {k: v for k, v in cube.attributes.items()
                 if k not in other.attributes
                 or np.all(values_equal(v, other.attributes[k]))}
        attrs.update({k: v for k, v in other.attributes.items()
                      if k not in cube.attributes})
        if in_place:
            if data.shape != cube.shape:
                raise ValueError("in-place broadcast not possible")
            cube.data = data
            result = cube
        else:
            if data.shape != template.shape:
                raise ValueError("cannot broadcast cubes")
            result = template.copy(data=data)
        result.attributes = attrs
        for name in drop:
            result.remove_coord(name)
        if result is not cube:
            # scalar coordinates present on one operand only are kept
            for coord in (cube if template is other else other).coords():
                if not (cube if template is other else other).coord_dims(coord):
                    if not result.coords(coord.name()) and coord.name() not in drop:
                        result.add_aux_coord(coord.copy())
        return _sanitise(result, unit)
    if isinstance(other, Coord):
        dims = cube.coord_dims(other) if dim is None and cube.coords(other) else (
            (dim,) if dim is not None else ())
        pts = other.points
        if dims:
            shape = [1] * cube.ndim
            for d, n in zip(dims, pts.shape):
                shape[d] = n
            pts = pts.reshape(shape)
        elif pts.shape == (1,):
            pts = pts[0]
        data = op(cube.core_data(), pts)
    else:
        data = op(cube.core_data(), other)
        if data is NotImplemented:
            raise TypeError("cannot combine cube with %r" % type(other))
        if data.shape != cube.shape:
            raise ValueError("array operand does not broadcast to the cube's shape")
    if in_place:
        cube.data = data
        return _sanitise(cube, unit)
    return _result(cube, data, unit)


def _check_units(cube, other):
    if hasattr(other, "units") and cube.units != other.units:
        raise NotYetImplementedError(
            "Cannot use %r with differing units (%s & %s)" % (
                "add/subtract", cube.units, other.units))


def add(cube, other, dim=None, in_place=False):
    _assert_is_cube(cube)
    _check_units(cube, other)
    return _binary(operator.add, cube, other, cube.units, in_place, dim)


def subtract(cube, other, dim=None, in_place=False):
    _assert_is_cube(cube)
    _check_units(cube, other)
    return _binary(operator.sub, cube, other, cube.units, in_place, dim)


def multiply(cube, other, dim=None, in_place=False):
    _assert_is_cube(cube)
    unit = cube.units * getattr(other, "units", 1)
    return _binary(operator.mul, cube, other, unit, in_place, dim)


def divide(cube, other, dim=None, in_place=False):
    _assert_is_cube(cube)
    unit = cube.units / getattr(other, "units", 1)
    return _binary(operator.truediv, cube, other, unit, in_place, dim)


def exponentiate(cube, exponent, in_place=False):
    _assert_is_cube(cube)
    data = np.ma.power(cube.data, exponent) if np.ma.isMaskedArray(cube.data) else (
        np.power(cube.data, exponent))
    unit = cube.units ** exponent
    if in_place:
        cube.data = data
        return _sanitise(cube, unit)
    return _result(cube, data, unit)


def abs(cube, in_place=False):
    data = np.abs(cube.data)
    return _result(cube, data, cube.units)


def apply_ufunc(ufunc, cube, other=None, new_unit=None, new_name=None, in_place=False):
    data = ufunc(cube.data) if other is None else ufunc(cube.data, other.data)
    result = _result(cube, data, new_unit)
    if new_name:
        result.rename(new_name)
    return result


def log(cube, in_place=False):
    return _result(cube, np.log(cube.data), cube.units.log(2.718281828))


_ = attributes_equal
