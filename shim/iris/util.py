"""Stand-in for iris.util (iris 3.0 behaviour)."""
from collections.abc import Hashable, Iterable

import numpy as np

from ._lazy_data import is_lazy_data
from ._unsupported import ShimUnsupported


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimUnsupported("iris.util." + name)


# indexing helpers -----------------------------------------------------------
def _build_full_slice_given_keys(keys, ndim):
    if not isinstance(keys, tuple):
        keys = (keys,)
    if len(keys) > ndim and ndim != 0 and isinstance(keys[-1], slice) and (
        keys[-1] == slice(None, None)
    ):
        keys = keys[:-1]  # one appended ":" is allowed
    if len([k for k in keys if k is not Ellipsis]) > ndim:
        raise IndexError(
            "More slices requested than dimensions. Requested %r, but there were only "
            "%s dimensions." % (keys, ndim))
    full = []
    seen = False
    n_given = len([k for k in keys if k is not Ellipsis])
    for k in keys:
        if k is Ellipsis:
            if not seen:
                full.extend([slice(None)] * (ndim - n_given))
                seen = True
        else:
            full.append(k)
    full.extend([slice(None)] * (ndim - len(full)))
    return tuple(full)


def _normalise_key(key, size):
    """An int, a slice or a 1-D integer array."""
    if isinstance(key, slice):
        return key
    if isinstance(key, (bool, np.bool_)):
        raise IndexError("boolean scalar index")
    if isinstance(key, (int, np.integer)):
        return int(key)
    arr = np.asarray(key)
    if arr.ndim == 0:
        return int(arr)
    if arr.dtype == bool:
        if arr.shape != (size,):
            raise IndexError("boolean index did not match")
        arr = np.where(arr)[0]
    if arr.size == 0 and not isinstance(key, np.ndarray):
        arr = arr.astype(int)
    return arr.astype(int)


def _index_array(data, keys):
    """Orthogonal indexing of ``data``; trailing dims are kept whole."""
    keys = _build_full_slice_given_keys(keys, data.ndim)
    norm = [_normalise_key(k, s) for k, s in zip(keys, data.shape)]
    n_arr = [i for i, k in enumerate(norm) if isinstance(k, np.ndarray)]
    if not n_arr:
        return data[tuple(norm)]
    for i in n_arr:
        sl = [slice(None)] * data.ndim
        sl[i] = norm[i]
        data = data[tuple(sl)]
        norm[i] = slice(None)
    return data[tuple(norm)]


# comparisons ------------------------------------------------------------------
def array_equal(array1, array2, withnans=False):
    def normalise(a):
        if not is_lazy_data(a):
            if not np.ma.isMaskedArray(a):
                a = np.asanyarray(a)
        else:
            a = a.compute()
        return a

    array1, array2 = normalise(array1), normalise(array2)
    eq = array1.shape == array2.shape
    if eq:
        eqs = array1 == array2
        if withnans and (array1.dtype.kind == "f" or array2.dtype.kind == "f"):
            eqs = np.where(np.isnan(array1.astype(float)) & np.isnan(array2.astype(float)),
                           True, eqs)
        eq = np.all(eqs)
        eq = bool(eq) or eq is np.ma.masked
    return eq


def approx_equal(a, b, max_absolute_error=1e-10, max_relative_error=1e-10):
    if a == b:
        return True
    diff = abs(a - b)
    if diff <= max_absolute_error:
        return True
    return diff / max(abs(a), abs(b)) <= max_relative_error


def monotonic(array, strict=False, return_direction=False):
    if array.ndim != 1 or len(array) <= 1:
        raise ValueError(
            "The array to check must be 1 dimensional and have more than 1 element.")
    if np.ma.isMaskedArray(array) and np.ma.is_masked(array):
        raise ValueError("masked array")
    d = np.diff(array.astype(np.float64) if array.dtype.kind in "ub" else array)
    sign = np.sign(d)
    if strict:
        inc = bool(np.all(d > 0))
        dec = bool(np.all(d < 0))
    else:
        inc = bool(np.all(d >= 0))
        dec = bool(np.all(d <= 0))
    mono = inc or dec
    if not return_direction:
        return mono
    direction = 1 if inc else (-1 if dec else (int(sign[0]) if len(sign) else 1))
    return mono, direction


def delta(ndarray, dimension, circular=False):
    if circular is not False:
        raise ShimUnsupported("delta(circular)")
    return np.diff(ndarray, axis=dimension)


def points_step(points):
    diffs = np.diff(points)
    avdiff = np.mean(diffs)
    regular = np.allclose(diffs, avdiff, rtol=0.001)
    return avdiff, bool(regular)


def is_regular(coord):
    from .exceptions import CoordinateMultiDimError, CoordinateNotRegularError

    try:
        regular_step(coord)
    except CoordinateNotRegularError:
        return False
    except (TypeError, CoordinateMultiDimError):
        return False
    return True


def regular_step(coord):
    from .exceptions import CoordinateMultiDimError, CoordinateNotRegularError

    if coord.ndim != 1:
        raise CoordinateMultiDimError("Expected 1D coord")
    if coord.shape[0] < 2:
        raise ValueError("Expected a non-scalar coord")
    avdiff, regular = points_step(coord.points)
    if not regular:
        raise CoordinateNotRegularError("Coord %s is not regular" % coord.name())
    return avdiff.astype(coord.points.dtype)


def guess_coord_axis(coord):
    axis = None
    if coord.standard_name in ("longitude", "grid_longitude", "projection_x_coordinate"):
        axis = "X"
    elif coord.standard_name in ("latitude", "grid_latitude", "projection_y_coordinate"):
        axis = "Y"
    elif coord.units.is_convertible("hPa") or coord.attributes.get("positive") in (
        "up", "down"
    ):
        axis = "Z"
    elif coord.units.is_time_reference():
        axis = "T"
    return axis


# array manipulation -----------------------------------------------------------
def rolling_window(a, window=1, step=1, axis=-1):
    axis = axis % a.ndim
    num_windows = (a.shape[axis] - window + step) // step
    shape = a.shape[:axis] + (num_windows, window) + a.shape[axis + 1:]
    strides = (a.strides[:axis] + (step * a.strides[axis], a.strides[axis])
               + a.strides[axis + 1:])
    rw = np.lib.stride_tricks.as_strided(a, shape=shape, strides=strides)
    if np.ma.isMaskedArray(a):
        mask = np.ma.getmaskarray(a)
        strides = (mask.strides[:axis] + (step * mask.strides[axis], mask.strides[axis])
                   + mask.strides[axis + 1:])
        rw = np.ma.array(rw, mask=np.lib.stride_tricks.as_strided(
            mask, shape=shape, strides=strides))
    return rw


def broadcast_to_shape(array, shape, dim_map):
    if len(dim_map) != array.ndim:
        emsg = "dim_map must have an entry for every dimension of the input array"
        raise ValueError(emsg)
    n_orig = len(shape)
    # put the array dims in increasing order of their targets
    order = np.argsort(dim_map) if array.ndim else []
    arr = array.transpose([int(o) for o in order]) if array.ndim else array
    targets = sorted(dim_map)
    new_shape = [1] * n_orig
    for size, t in zip(arr.shape, targets):
        new_shape[t] = size
    arr = arr.reshape(tuple(new_shape))
    if np.ma.isMaskedArray(arr):
        data = np.broadcast_to(arr.data, shape)
        mask = np.broadcast_to(np.ma.getmaskarray(arr), shape)
        return np.ma.array(data, mask=mask)
    return np.broadcast_to(arr, shape)


def reverse(cube_or_array, coords_or_dims):
    from .cube import Cube

    index = [slice(None)] * cube_or_array.ndim
    if isinstance(coords_or_dims, str) or not isinstance(coords_or_dims, Iterable):
        coords_or_dims = [coords_or_dims]
    for item in coords_or_dims:
        if isinstance(cube_or_array, Cube) and not isinstance(item, int):
            for d in cube_or_array.coord_dims(item):
                index[d] = slice(None, None, -1)
        else:
            index[item] = slice(None, None, -1)
    return cube_or_array[tuple(index)]


# cube manipulation -----------------------------------------------------------
def new_axis(src_cube, scalar_coord=None):
    from .coords import DimCoord

    if scalar_coord is not None:
        scalar_coord = src_cube.coord(scalar_coord)
        if len(scalar_coord.shape) > 1 or scalar_coord.shape[0] > 1 or (
            src_cube.coord_dims(scalar_coord)
        ):
            raise ValueError("{} is not a scalar coordinate.".format(
                scalar_coord.name()))
    from .cube import Cube

    data = src_cube.core_data()
    if is_lazy_data(data):
        new_data = data.reshape((1,) + data.shape)
    elif np.ma.isMaskedArray(data):
        new_data = np.ma.array(data.data[np.newaxis],
                               mask=np.ma.getmaskarray(data)[np.newaxis]
                               if np.ma.getmask(data) is not np.ma.nomask
                               else np.ma.nomask,
                               fill_value=data.fill_value)
    else:
        new_data = data[np.newaxis]
    new_cube = Cube(new_data)
    new_cube.metadata = src_cube.metadata
    for coord in src_cube.aux_coords:
        if scalar_coord is not None and coord is scalar_coord:
            dim_coord = DimCoord(
                coord.points, bounds=coord.bounds, standard_name=coord.standard_name,
                long_name=coord.long_name, var_name=coord.var_name, units=coord.units,
                attributes=coord.attributes, coord_system=coord.coord_system,
                circular=getattr(coord, "circular", False))
            new_cube.add_dim_coord(dim_coord, 0)
        else:
            dims = np.array(src_cube.coord_dims(coord)) + 1
            new_cube.add_aux_coord(coord.copy(), tuple(int(d) for d in dims))
    for coord in src_cube.dim_coords:
        dims = src_cube.coord_dims(coord)
        new_cube.add_dim_coord(coord.copy(), dims[0] + 1)
    return new_cube


def squeeze(cube):
    slices = [slice(None) if n > 1 else 0 for n in cube.shape]
    squeezed = cube[tuple(slices)]
    return squeezed if squeezed.shape != cube.shape else cube


def promote_aux_coord_to_dim_coord(cube, name_or_coord):
    from .coords import Coord, DimCoord

    if isinstance(name_or_coord, str):
        aux_coord = cube.coord(name_or_coord)
    elif isinstance(name_or_coord, Coord):
        aux_coord = name_or_coord
    else:
        raise ValueError("Don't know how to handle coordinate of type {}.".format(
            type(name_or_coord)))
    if aux_coord in cube.dim_coords:
        return
    if aux_coord not in cube.aux_coords:
        raise ValueError("Attempting to promote an AuxCoord ({}) which does not exist "
                         "in the cube.".format(aux_coord.name()))
    coord_dim = cube.coord_dims(aux_coord)
    if len(coord_dim) != 1:
        raise ValueError("Attempting to promote an AuxCoord ({}) which is associated "
                         "with {} dimensions.".format(aux_coord.name(), len(coord_dim)))
    try:
        dim_coord = DimCoord(
            aux_coord.points, bounds=aux_coord.bounds,
            standard_name=aux_coord.standard_name, long_name=aux_coord.long_name,
            var_name=aux_coord.var_name, units=aux_coord.units,
            attributes=aux_coord.attributes, coord_system=aux_coord.coord_system)
    except ValueError as valerr:
        raise ValueError(
            "Attempt to promote an AuxCoord ({}) fails when attempting to create a "
            "DimCoord from the AuxCoord because: {}".format(
                aux_coord.name(), str(valerr)))
    old_dim_coord = cube.coords(dim_coords=True, contains_dimension=coord_dim[0])
    if len(old_dim_coord) == 1:
        demote_dim_coord_to_aux_coord(cube, old_dim_coord[0])
    cube.remove_coord(aux_coord)
    cube.add_dim_coord(dim_coord, coord_dim)


def demote_dim_coord_to_aux_coord(cube, name_or_coord):
    from .coords import Coord

    if isinstance(name_or_coord, str):
        dim_coord = cube.coord(name_or_coord)
    elif isinstance(name_or_coord, Coord):
        dim_coord = name_or_coord
    else:
        raise ValueError("Don't know how to handle coordinate of type {}.".format(
            type(name_or_coord)))
    if dim_coord not in cube.dim_coords:
        return
    coord_dim = cube.coord_dims(dim_coord)
    cube.remove_coord(dim_coord)
    cube.add_aux_coord(dim_coord, coord_dim)


def equalise_attributes(cubes):
    from ._cf_common import values_equal

    removed = []
    common = list(cubes[0].attributes.keys()) if len(cubes) else []
    keys = []
    for key in common:
        if all(key in c.attributes
               and bool(np.all(values_equal(c.attributes[key], cubes[0].attributes[key])))
               for c in cubes[1:]):
            keys.append(key)
    for cube in cubes:
        for k in list(cube.attributes.keys()):
            if k not in keys:
                removed.append(k)
                del cube.attributes[k]
    return removed


def unify_time_units(cubes):
    epochs = {}
    for cube in cubes:
        for time_coord in cube.coords():
            if time_coord.units.is_time_reference():
                epoch = epochs.setdefault(time_coord.units.calendar, time_coord.units)
                time_coord.convert_units(epoch)


def describe_diff(cube_a, cube_b, output_file=None):
    if not cube_a.is_compatible(cube_b):
        print("Cubes differ", file=output_file)
    return None


def clip_string(the_str, clip_length=70, rider="..."):
    return the_str if len(the_str) <= clip_length else the_str[:clip_length] + rider


def file_is_newer_than(result_path, source_paths):
    raise ShimUnsupported("file_is_newer_than")


def between(lh, rh, lh_inclusive=True, rh_inclusive=True):
    def _between(cell):
        left = cell >= lh if lh_inclusive else cell > lh
        right = cell <= rh if rh_inclusive else cell < rh
        return left and right

    return _between


def find_discontiguities(cube, **kwargs):
    raise ShimUnsupported("find_discontiguities")


def column_slices_generator(full_slice, ndims):
    raise ShimUnsupported("column_slices_generator")


_ = Hashable
