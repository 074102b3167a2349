"""Aggregators and interpolation schemes (stand-in for iris.analysis, iris 3.0)."""
import operator
from collections.abc import Iterable
from functools import reduce

import numpy as np
import numpy.ma as ma
import scipy.interpolate  # noqa: F401  (iris loads it; IMPROVER relies on that)

from .. import exceptions
from .._unsupported import ShimUnsupported
from ..coords import AuxCoord, CellMethod, Coord, DimCoord
from . import maths  # noqa: F401


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name == "cartography":
        import importlib

        return importlib.import_module("iris.analysis.cartography")
    raise ShimUnsupported("iris.analysis." + name)


def clear_phenomenon_identity(cube):
    cube.rename(None)
    cube.attributes.pop("STASH", None)
    cube.cell_methods = None


# aggregators ------------------------------------------------------------------
class _Aggregator:
    def __init__(self, cell_method, call_func, units_func=None, lazy_func=None, **kwargs):
        self.cell_method = cell_method
        self.call_func = call_func
        self.units_func = units_func
        self.lazy_func = lazy_func
        self._kwargs = kwargs

    def lazy_aggregate(self, data, axis, **kwargs):
        if self.lazy_func is None:
            raise exceptions.LazyAggregatorError(
                "{} aggregator does not support lazy operation.".format(self.name()))
        kwargs = dict(list(self._kwargs.items()) + list(kwargs.items()))
        return self.lazy_func(data, axis=axis, **kwargs)

    def aggregate(self, data, axis, **kwargs):
        kwargs = dict(list(self._kwargs.items()) + list(kwargs.items()))
        mdtol = kwargs.pop("mdtol", None)
        result = self.call_func(data, axis=axis, **kwargs)
        if mdtol is not None and ma.isMaskedArray(data) and result is not ma.masked:
            fraction_not_missing = data.count(axis=axis) / data.shape[axis]
            mask_update = 1 - mdtol > fraction_not_missing
            if ma.isMaskedArray(result):
                result.mask = result.mask | mask_update
            else:
                result = ma.array(result, mask=mask_update)
        return result

    def update_metadata(self, cube, coords, **kwargs):
        kwargs = dict(list(self._kwargs.items()) + list(kwargs.items()))
        if self.units_func is not None:
            cube.units = self.units_func(cube.units)

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        collapsed_cube.data = data_result
        return collapsed_cube

    def aggregate_shape(self, **kwargs):
        return ()

    def name(self):
        return self.cell_method.lower().replace(" ", "_")

    def __call__(self, *args, **kwargs):
        raise TypeError("aggregators are not callable")


class Aggregator(_Aggregator):
    def update_metadata(self, cube, coords, **kwargs):
        _Aggregator.update_metadata(self, cube, coords, **kwargs)
        kwargs = dict(list(self._kwargs.items()) + list(kwargs.items()))
        if not isinstance(coords, (list, tuple)):
            coords = [coords]
        coord_names = []
        for coord in coords:
            if not isinstance(coord, Coord):
                raise TypeError("Coordinate instance expected to the Aggregator object.")
            coord_names.append(coord.name())
        method_name = self.cell_method.format(**kwargs)
        cube.add_cell_method(CellMethod(method_name, coord_names))


class WeightedAggregator(Aggregator):
    def __init__(self, cell_method, call_func, units_func=None, lazy_func=None, **kwargs):
        Aggregator.__init__(self, cell_method, call_func, units_func=units_func,
                            lazy_func=lazy_func, **kwargs)
        self._weighting_keywords = ["returned", "weights"]

    def uses_weighting(self, **kwargs):
        return any(k in kwargs for k in self._weighting_keywords)

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        if kwargs.get("returned", False):
            cell_method = collapsed_cube
            cell_method.data = data_result[0]
            return (cell_method, data_result[1])
        return Aggregator.post_process(self, collapsed_cube, data_result, coords, **kwargs)


class PercentileAggregator(_Aggregator):
    def __init__(self, units_func=None, lazy_func=None, **kwargs):
        self._name = "percentile"
        self._args = ["percent"]
        _Aggregator.__init__(self, None, _percentile, units_func=units_func,
                             lazy_func=lazy_func, **kwargs)

    def aggregate(self, data, axis, **kwargs):
        if kwargs.get("percent") is None:
            raise ValueError("percentile aggregator requires the mandatory keyword "
                             "argument 'percent'.")
        return _Aggregator.aggregate(self, data, axis, **kwargs)

    def name(self):
        return self._name

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        from ..cube import CubeList

        cubes = CubeList()
        points = kwargs["percent"]
        names = [coord.name() for coord in coords]
        coord_name = "{}_over_{}".format(self.name(), "_".join(names))
        if not isinstance(points, Iterable):
            points = [points]
        for point in points:
            cube = collapsed_cube.copy()
            cube.add_aux_coord(AuxCoord(point, long_name=coord_name, units="percent"))
            cubes.append(cube)
        collapsed_cube = cubes.merge_cube()
        if len(list(points)) > 1:
            data_result = np.rollaxis(data_result, -1)
            # merging sorts the percentiles
            order = np.argsort(np.array(list(points)))
            data_result = data_result[order]
        return _Aggregator.post_process(self, collapsed_cube, data_result, coords, **kwargs)


def _percentile(data, axis, percent, fast_percentile_method=False, **kwargs):
    import scipy.stats.mstats

    data = np.rollaxis(data, axis, start=data.ndim)
    shape = data.shape[:-1]
    if shape:
        data = data.reshape([np.prod(shape), data.shape[-1]])
    quantiles = np.array(percent) / 100.0
    if fast_percentile_method:
        if ma.is_masked(data):
            raise TypeError("Cannot use fast np.percentile method with masked array.")
        result = np.percentile(data, percent, axis=-1)
        result = result.T
    else:
        result = scipy.stats.mstats.mquantiles(data, quantiles, axis=-1, **kwargs)
    if not ma.isMaskedArray(data) and not ma.is_masked(result):
        result = np.asarray(result)
    else:
        result = ma.MaskedArray(result)
    if shape:
        if not isinstance(percent, Iterable):
            percent = [percent]
        percent = np.array(percent)
        if percent.shape > (1,):
            shape += percent.shape
        result = result.reshape(shape)
    if result.shape == (1,) and quantiles.ndim == 0:
        result = result[0]
    return result


def _sum(array, axis=None, **kwargs):
    weights = kwargs.get("weights", None)
    returned = kwargs.get("returned", False)
    if weights is not None:
        wsum = np.sum(weights * array, axis=axis)
    else:
        wsum = np.sum(array, axis=axis)
    if returned:
        if weights is None:
            weights = np.ones_like(array)
        return wsum, np.sum(weights, axis=axis)
    return wsum


def _count(array, axis=None, function=None, **kwargs):
    if not callable(function):
        raise ValueError("function must be a callable. Got %s." % type(function))
    return ma.sum(function(array), axis=axis)


def _proportion(array, function, axis=None, **kwargs):
    if ma.isMaskedArray(array):
        array_axis = array.count(axis=axis)
    else:
        array_axis = array.shape[axis]
    return _count(array, axis=axis, function=function) / ma.array(array_axis, dtype=float)


def _rms(array, axis, **kwargs):
    return np.sqrt(ma.average(np.square(array), axis=axis, **kwargs))


COUNT = Aggregator("count", _count, units_func=lambda units: 1)
MAX = Aggregator("maximum", ma.max)
MEAN = WeightedAggregator("mean", ma.average)
MEDIAN = Aggregator("median", ma.median)
MIN = Aggregator("minimum", ma.min)
PERCENTILE = PercentileAggregator(alphap=1, betap=1)
PROPORTION = Aggregator("proportion", _proportion, units_func=lambda units: 1)
RMS = WeightedAggregator("root mean square", _rms)
STD_DEV = Aggregator("standard_deviation", ma.std, ddof=1)
SUM = WeightedAggregator("sum", _sum)
VARIANCE = Aggregator("variance", ma.var, units_func=lambda units: units * units, ddof=1)


def _collapse(cube, coords, aggregator, **kwargs):
    coords = cube._as_list_of_coords(coords)
    dims_to_collapse = set()
    for coord in coords:
        dims_to_collapse.update(cube.coord_dims(coord))
    if not dims_to_collapse:
        raise exceptions.CoordinateCollapseError(
            "Cannot collapse a dimension which does not describe any data.")
    untouched = [d for d in range(cube.ndim) if d not in dims_to_collapse]
    indices = [slice(None)] * cube.ndim
    for d in dims_to_collapse:
        indices[d] = 0
    collapsed_cube = cube[tuple(indices)]
    for coord in cube.aux_coords + cube.dim_coords:
        coord_dims = cube.coord_dims(coord)
        if dims_to_collapse.intersection(coord_dims):
            local = [coord_dims.index(d) for d in dims_to_collapse if d in coord_dims]
            collapsed_cube.replace_coord(coord.collapsed(local))
    dims_to_collapse = sorted(dims_to_collapse)
    end_size = reduce(operator.mul, (cube.shape[d] for d in dims_to_collapse))
    new_shape = [cube.shape[d] for d in untouched] + [end_size]
    dims = untouched + dims_to_collapse
    data = np.transpose(cube.data, dims).reshape(new_shape)
    if kwargs.get("weights") is not None:
        weights = np.asanyarray(kwargs["weights"])
        if weights.shape != cube.shape:
            raise ValueError("weights must have the same shape as the cube")
        kwargs["weights"] = np.transpose(weights, dims).reshape(new_shape)
    data_result = aggregator.aggregate(data, axis=-1, **kwargs)
    aggregator.update_metadata(collapsed_cube, coords, axis=-1, **kwargs)
    return aggregator.post_process(collapsed_cube, data_result, coords, **kwargs)


# interpolation ------------------------------------------------------------------
_LINEAR_MODES = ("linear", "nan", "error", "mask", "nanmask")
_NEAREST_MODES = ("extrapolate", "nan", "error", "mask", "nanmask")


class Linear:
    def __init__(self, extrapolation_mode=None):
        if extrapolation_mode is None:
            extrapolation_mode = "linear"
        if extrapolation_mode not in _LINEAR_MODES + ("extrapolate",):
            raise ValueError("Extrapolation mode {!r} not supported.".format(
                extrapolation_mode))
        self.extrapolation_mode = extrapolation_mode

    def __repr__(self):
        return "Linear({!r})".format(self.extrapolation_mode)

    def interpolator(self, cube, coords):
        return _Interpolator(cube, coords, "linear", self.extrapolation_mode)

    def regridder(self, src_grid, target_grid):
        return _Regridder(src_grid, target_grid, "linear", self.extrapolation_mode)


class Nearest:
    def __init__(self, extrapolation_mode=None):
        if extrapolation_mode is None:
            extrapolation_mode = "extrapolate"
        if extrapolation_mode not in _NEAREST_MODES:
            raise ValueError("Extrapolation mode {!r} not supported.".format(
                extrapolation_mode))
        self.extrapolation_mode = extrapolation_mode

    def __repr__(self):
        return "Nearest({!r})".format(self.extrapolation_mode)

    def interpolator(self, cube, coords):
        return _Interpolator(cube, coords, "nearest", self.extrapolation_mode)

    def regridder(self, src_grid, target_grid):
        return _Regridder(src_grid, target_grid, "nearest", self.extrapolation_mode)


def _weights_1d(src, new, method):
    """Lower index, upper index, weight of upper, and outside flag."""
    src = np.asarray(src, dtype=np.float64)
    new = np.asarray(new, dtype=np.float64)
    flip = src[0] > src[-1]
    s = src[::-1] if flip else src
    n = len(s)
    if n == 1:
        lo = np.zeros(new.shape, dtype=int)
        w = np.zeros(new.shape)
        outside = new != s[0]
        return lo, lo.copy(), w, outside
    lo = np.clip(np.searchsorted(s, new, side="right") - 1, 0, n - 2)
    hi = lo + 1
    w = (new - s[lo]) / (s[hi] - s[lo])
    outside = (new < s[0]) | (new > s[-1]) | np.isnan(new)
    if method == "nearest":
        w = np.where(np.isnan(w), 0, w)
        # ties go to the lower source index, as in iris' regular grid interpolator
        w = (w > 0.5).astype(float)
        w = np.clip(w, 0, 1)
    if flip:
        lo, hi = n - 1 - lo, n - 1 - hi
    return lo, hi, w, outside


def _expand(vec, ndim, dim):
    shape = [1] * ndim
    shape[dim] = len(vec)
    return vec.reshape(shape)


def _interp_along(data, dim, src, new, method, mode):
    lo, hi, w, outside = _weights_1d(src, new, method)
    if method == "linear":
        dtype = np.result_type(np.float16, data.dtype)
    else:
        dtype = data.dtype
    raw = ma.getdata(data)
    dlo = np.take(raw, lo, axis=dim)
    dhi = np.take(raw, hi, axis=dim)
    wb = _expand(w, raw.ndim, dim)
    if method == "nearest":
        result = np.where(wb > 0.5, dhi, dlo)
    else:
        # zero-weight neighbours do not contaminate (sparse weights in iris do not
        # multiply by zero entries only when exactly zero)
        work = np.complex128 if raw.dtype.kind == "c" else np.float64
        result = (dlo.astype(work) * (1 - wb) + dhi.astype(work) * wb)
        result = result.astype(dtype)
    mask = None
    if ma.isMaskedArray(data):
        m = ma.getmaskarray(data)
        mlo = np.take(m, lo, axis=dim) & (wb != 1)
        mhi = np.take(m, hi, axis=dim) & (wb != 0)
        mask = mlo | mhi
    if outside.any():
        ob = np.broadcast_to(_expand(outside, raw.ndim, dim), result.shape)
        if mode == "error":
            raise ValueError("One of the requested xi is out of bounds")
        if mode == "nan" or (mode == "nanmask" and mask is None):
            if result.dtype.kind != "f":
                result = result.astype(np.float64)
            result = np.where(ob, np.nan, result).astype(result.dtype)
        elif mode in ("mask", "nanmask"):
            mask = (mask if mask is not None else np.zeros(result.shape, bool)) | ob
    if mask is not None:
        result = ma.array(result, mask=mask)
    return result


class _Interpolator:
    def __init__(self, cube, coords, method, mode):
        self._cube = cube
        self._method = method
        self._mode = mode
        self._coords = [cube.coord(c) for c in coords]
        for coord in self._coords:
            if coord.ndim != 1:
                raise ValueError("Interpolation coords must be 1-d for rectilinear "
                                 "interpolation.")
            if len(cube.coord_dims(coord)) != 1:
                raise ValueError(
                    "Coordinates used for interpolation must be dimensioned.")
            if method == "linear" and coord.shape[0] < 2:
                raise ValueError(
                    "Cannot linearly interpolate over {!r} when there is only one "
                    "source point.".format(coord.name()))
        dims = [cube.coord_dims(c) for c in self._coords]
        if len(set(dims)) != len(dims):
            raise ValueError("Coordinates repeat a data dimension - the interpolation "
                             "would be over-specified.")

    def __call__(self, sample_points, collapse_scalar=True):
        if len(sample_points) != len(self._coords):
            raise ValueError("Expected sample points for {} coordinates, got {}.".format(
                len(self._coords), len(sample_points)))
        cube = self._cube
        data = cube.data
        plan = []
        for coord, pts in zip(self._coords, sample_points):
            arr = np.asarray(pts)
            if arr.dtype.kind == "O":
                arr = np.asarray(coord.units.date2num(
                    pts if arr.ndim == 0 else list(arr)))
            scalar = arr.ndim == 0
            arr = np.atleast_1d(arr)
            dim = cube.coord_dims(coord)[0]
            data = _interp_along(data, dim, coord.points, arr, self._method, self._mode)
            plan.append((coord, dim, arr, scalar))
        dims_done = {dim: (coord, arr) for coord, dim, arr, _ in plan}
        from ..cube import Cube

        new = Cube(data)
        new.metadata = cube.metadata
        for coord in cube.coords():
            cdims = cube.coord_dims(coord)
            hit = [d for d in cdims if d in dims_done]
            if not hit:
                target = coord.copy()
            elif any(coord is c for c, _ in dims_done.values()):
                arr = dims_done[cdims[0]][1]
                try:
                    target = DimCoord(
                        arr, standard_name=coord.standard_name,
                        long_name=coord.long_name, var_name=coord.var_name,
                        units=coord.units, attributes=coord.attributes,
                        coord_system=coord.coord_system)
                except ValueError:
                    target = AuxCoord(
                        arr, standard_name=coord.standard_name,
                        long_name=coord.long_name, var_name=coord.var_name,
                        units=coord.units, attributes=coord.attributes,
                        coord_system=coord.coord_system)
            else:
                if coord.dtype.kind not in "iuf":
                    continue
                pts = coord.points
                for d in hit:
                    src, arr = dims_done[d]
                    pts = _interp_along(pts, cdims.index(d), src.points, arr,
                                        self._method, "linear")
                kwargs = dict(standard_name=coord.standard_name,
                              long_name=coord.long_name, var_name=coord.var_name,
                              units=coord.units, attributes=coord.attributes,
                              coord_system=coord.coord_system)
                try:
                    target = type(coord)(pts, **kwargs)
                except ValueError:
                    target = AuxCoord(pts, **kwargs)
            is_dim = any(coord is c for c in cube.dim_coords)
            if is_dim and isinstance(target, DimCoord) and not new.coords(
                dim_coords=True, contains_dimension=cdims[0]
            ):
                new.add_dim_coord(target, cdims[0])
            else:
                new.add_aux_coord(target, cdims)
        if collapse_scalar:
            idx = [slice(None)] * new.ndim
            for _, dim, _, scalar in plan:
                if scalar:
                    idx[dim] = 0
            new = new[tuple(idx)]
        return new


class _Regridder:
    def __init__(self, src, tgt, method, mode):
        self._src_x, self._src_y = _get_xy(src)
        self._tgt_x, self._tgt_y = _get_xy(tgt)
        self._method = method
        self._mode = mode

    def __call__(self, cube):
        x_coord, y_coord = _get_xy(cube)
        xdim = cube.coord_dims(x_coord)
        ydim = cube.coord_dims(y_coord)
        if not xdim or not ydim:
            raise ShimUnsupported("regrid of a cube without x and y dimensions")
        xdim, ydim = xdim[0], ydim[0]
        tx, ty = self._tgt_x, self._tgt_y
        if x_coord == tx and y_coord == ty:
            return cube.copy()
        same_cs = x_coord.coord_system == tx.coord_system
        if (x_coord.coord_system is None) != (tx.coord_system is None):
            raise ValueError("The rectilinear source cube has no coordinate system while "
                             "the target has, or vice versa.")
        data = cube.data
        if same_cs:
            xs = np.array(tx.points, dtype=np.float64)
            ys = np.array(ty.points, dtype=np.float64)
            xs = _wrap_to(x_coord, xs)
            mode = self._mode if self._mode != "extrapolate" else "linear"
            sx, sdata = _circular(x_coord, data, xdim)
            out = _interp_along(sdata, xdim, sx, xs, self._method, mode)
            out = _interp_along(out, ydim, y_coord.points, ys, self._method, mode)
        else:
            src_crs = x_coord.coord_system.as_cartopy_projection()
            tgt_crs = tx.coord_system.as_cartopy_projection()
            gx, gy = np.meshgrid(tx.points.astype(float), ty.points.astype(float))
            pts = src_crs.transform_points(tgt_crs, gx, gy)
            out = self._scattered(cube, x_coord, y_coord, xdim, ydim,
                                  pts[..., 0], pts[..., 1])
        from ..cube import Cube

        new = Cube(out)
        new.metadata = cube.metadata
        for coord in cube.dim_coords:
            if coord is x_coord:
                new.add_dim_coord(tx.copy() if isinstance(tx, DimCoord) else tx, xdim)
            elif coord is y_coord:
                new.add_dim_coord(ty.copy(), ydim)
            else:
                new.add_dim_coord(coord.copy(), cube.coord_dims(coord))
        for coord in cube.aux_coords:
            dims = cube.coord_dims(coord)
            if coord is x_coord or coord is y_coord:
                new.add_aux_coord((tx if coord is x_coord else ty).copy(), dims)
                continue
            if xdim in dims or ydim in dims:
                continue
            new.add_aux_coord(coord.copy(), dims)
        return new

    def _scattered(self, cube, x_coord, y_coord, xdim, ydim, px, py):
        px = _wrap_to(x_coord, px)
        shape2d = px.shape
        sx, sdata = _circular(x_coord, cube.data, xdim)
        xlo, xhi, xw, xout = _weights_1d(sx, px.ravel(), self._method)
        ylo, yhi, yw, yout = _weights_1d(y_coord.points, py.ravel(), self._method)
        raw = np.moveaxis(ma.getdata(sdata), (ydim, xdim), (-2, -1))
        msk = np.moveaxis(ma.getmaskarray(sdata), (ydim, xdim), (-2, -1))
        masked = ma.isMaskedArray(sdata)
        dtype = (np.result_type(np.float16, raw.dtype) if self._method == "linear"
                 else raw.dtype)
        result = 0.0
        mask = False
        if self._method == "nearest":
            xi = np.where(xw > 0.5, xhi, xlo)
            yi = np.where(yw > 0.5, yhi, ylo)
            result = raw[..., yi, xi]
            mask = msk[..., yi, xi]
        else:
            for yi, wy in ((ylo, 1 - yw), (yhi, yw)):
                for xi, wx in ((xlo, 1 - xw), (xhi, xw)):
                    w = wy * wx
                    result = result + raw[..., yi, xi].astype(np.float64) * w
                    mask = mask | (msk[..., yi, xi] & (w != 0))
            result = result.astype(dtype)
        outside = xout | yout
        if outside.any():
            if self._mode == "error":
                raise ValueError("out of bounds")
            if self._mode == "nan" or (self._mode == "nanmask" and not masked):
                result = np.where(outside, np.nan, result).astype(
                    result.dtype if result.dtype.kind == "f" else float)
            elif self._mode in ("mask", "nanmask"):
                mask = mask | outside
                masked = True
        result = result.reshape(result.shape[:-1] + shape2d)
        if masked:
            mask = np.broadcast_to(mask, result.shape[:-2] + (px.size,)).reshape(
                result.shape)
            result = ma.array(result, mask=mask)
        return np.moveaxis(result, (-2, -1), (ydim, xdim))


def _wrap_to(coord, xs):
    modulus = coord.units.modulus
    if modulus and getattr(coord, "circular", False):
        lo = np.min(coord.points)
        return (xs - lo) % modulus + lo
    if modulus:
        # a target longitude is moved by a whole period only if that brings it inside
        lo, hi = np.min(coord.points), np.max(coord.points)
        wrapped = (xs - lo) % modulus + lo
        inside = wrapped <= hi
        return np.where((xs < lo) | (xs > hi), np.where(inside, wrapped, xs), xs)
    return xs


def _circular(coord, data, xdim):
    if not getattr(coord, "circular", False):
        return coord.points, data
    modulus = coord.units.modulus
    pts = coord.points.astype(np.float64)
    step = modulus if pts[-1] > pts[0] else -modulus
    pts = np.append(pts, pts[0] + step)
    first = np.take(ma.getdata(data), [0], axis=xdim)
    if ma.isMaskedArray(data):
        mfirst = np.take(ma.getmaskarray(data), [0], axis=xdim)
        first = ma.array(first, mask=mfirst)
        data = ma.concatenate([data, first], axis=xdim)
    else:
        data = np.concatenate([data, first], axis=xdim)
    return pts, data


def _get_xy(cube):
    def one(axis):
        found = cube.coords(axis=axis, dim_coords=True)
        if len(found) != 1:
            found = cube.coords(axis=axis)
        if len(found) != 1:
            raise ValueError("Cube {!r} must contain a single 1D {} coordinate.".format(
                cube.name(), axis.lower()))
        return found[0]

    return one("X"), one("Y")


def _intersection(cube, *args, **kwargs):
    ignore_bounds = kwargs.pop("ignore_bounds", False)
    result = cube
    items = list(args) + [
        (k,) + tuple(v) for k, v in kwargs.items()]
    for item in items:
        name, minimum, maximum = item[:3]
        min_inc = item[3] if len(item) > 3 else True
        max_inc = item[4] if len(item) > 4 else True
        coord = result.coord(name)
        if coord.ndim != 1:
            raise exceptions.CoordinateMultiDimError(coord)
        modulus = coord.units.modulus
        pts = coord.points.astype(np.float64)
        if modulus is None:
            if coord.has_bounds() and not ignore_bounds:
                raise ShimUnsupported("intersection with bounds")
            keep = ((pts >= minimum) if min_inc else (pts > minimum)) & (
                (pts <= maximum) if max_inc else (pts < maximum))
            if not keep.any():
                raise IndexError("No intersection between the requested range and the "
                                 "coordinate")
            dims = result.coord_dims(coord)
            if dims:
                sl = [slice(None)] * result.ndim
                sl[dims[0]] = np.where(keep)[0]
                result = result[tuple(sl)]
            continue
        if maximum > minimum + modulus:
            raise ValueError("requested range greater than coordinate's unit's modulus")
        if coord.has_bounds() and not ignore_bounds:
            b = coord.bounds.astype(np.float64)
            width = b - pts[:, None]
            w = (pts - minimum) % modulus + minimum
            lo = w + width.min(axis=1)
            hi = w + width.max(axis=1)
            # also consider the image one period below
            keep = ((lo <= maximum) & (hi >= minimum)) if min_inc and max_inc else (
                (lo < maximum) & (hi > minimum))
            w2, lo2, hi2 = w - modulus, lo - modulus, hi - modulus
            keep2 = ~keep & (lo2 <= maximum) & (hi2 >= minimum)
            w = np.where(keep2, w2, w)
            keep = keep | keep2
        else:
            w = (pts - minimum) % modulus + minimum
            keep = ((w >= minimum) if min_inc else (w > minimum)) & (
                (w <= maximum) if max_inc else (w < maximum))
        if not keep.any():
            raise IndexError("No intersection")
        idx = np.where(keep)[0]
        increasing = len(pts) < 2 or pts[1] > pts[0]
        idx = idx[np.argsort(w[idx] if increasing else -w[idx], kind="stable")]
        dims = result.coord_dims(coord)
        sl = [slice(None)] * result.ndim
        shift = (w - pts)[idx]
        if dims:
            data = result.data
            new_pts = pts[idx] + shift
            kw = dict(standard_name=coord.standard_name, long_name=coord.long_name,
                      var_name=coord.var_name, units=coord.units,
                      attributes=coord.attributes, coord_system=coord.coord_system)
            new_b = None if not coord.has_bounds() else coord.bounds[idx] + shift[:, None]
            new_coord = DimCoord(new_pts.astype(coord.dtype), bounds=None if new_b is None
                                 else new_b.astype(coord.bounds.dtype), **kw)
            from ..cube import Cube

            new = Cube(np.take(data, idx, axis=dims[0]) if not ma.isMaskedArray(data)
                       else ma.array(np.take(data.data, idx, axis=dims[0]),
                                     mask=np.take(ma.getmaskarray(data), idx, axis=dims[0])))
            new.metadata = result.metadata
            for c in result.dim_coords:
                d = result.coord_dims(c)[0]
                if c is coord:
                    new.add_dim_coord(new_coord, d)
                else:
                    new.add_dim_coord(c.copy(), d)
            for c in result.aux_coords:
                cd = result.coord_dims(c)
                if dims[0] in cd:
                    key = tuple(idx if d == dims[0] else slice(None) for d in cd)
                    new.add_aux_coord(c[key], cd)
                else:
                    new.add_aux_coord(c.copy(), cd)
            result = new
            _ = sl
    return result
