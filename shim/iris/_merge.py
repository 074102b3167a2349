"""Cube merging (stand-in for iris._merge): scalar coordinates become dimensions."""
import itertools
from collections import OrderedDict

import numpy as np

from ._cf_common import attributes_equal, metadata_equal, values_equal
from ._lazy_data import is_lazy_data
from .coords import AuxCoord, DimCoord
from .exceptions import DuplicateDataError, MergeError
from .util import guess_coord_axis

_HINTS = ["time", "forecast_reference_time", "forecast_period", "model_level_number"]
_AXIS = {"T": 0, "Z": 1, "Y": 2, "X": 3}
_DIM_AXIS = {"T": 1, "Z": 2, "Y": 3, "X": 4}


def _sorted_coords(cube):
    def key(coord):
        return (
            coord.dtype.kind not in "biufc",
            not isinstance(coord, DimCoord),
            _HINTS.index(coord.name()) if coord.name() in _HINTS else len(_HINTS) + 1,
            _AXIS.get(guess_coord_axis(coord), len(_AXIS) + 1),
            coord.name(),
            tuple(cube.coord_dims(coord)),
        )

    return sorted(list(cube.dim_coords) + list(cube.aux_coords), key=key)


def _value(coord):
    point = coord.points[0]
    point = point.item() if hasattr(point, "item") else point
    bound = None
    if coord.has_bounds():
        bound = tuple(b.item() for b in coord.bounds[0])
    return (point, bound)


class _Skeleton:
    def __init__(self, cube):
        self.cube = cube
        self.scalars = []
        self.vectors = []
        for coord in _sorted_coords(cube):
            dims = cube.coord_dims(coord)
            if not dims and coord.shape == (1,):
                self.scalars.append(coord)
            else:
                self.vectors.append((coord, dims))
        self.values = [_value(c) for c in self.scalars]


def _differences(a, b):
    """Messages on why the two skeletons cannot be in one cube."""
    msgs = []
    ca, cb = a.cube, b.cube
    ma, mb = ca.metadata, cb.metadata
    for field in ("standard_name", "long_name", "var_name", "units"):
        if getattr(ma, field) != getattr(mb, field):
            msgs.append("cube.%s differs: %r != %r" % (
                field, getattr(ma, field), getattr(mb, field)))
    if not attributes_equal(ma.attributes, mb.attributes):
        diff_keys = set(ma.attributes) ^ set(mb.attributes)
        if diff_keys:
            msgs.append("cube.attributes keys differ: " + ", ".join(
                repr(key) for key in diff_keys))
        else:
            diff = [repr(k) for k in ma.attributes
                    if not np.all(values_equal(ma.attributes[k], mb.attributes[k]))]
            msgs.append("cube.attributes values differ for keys: " + ", ".join(diff))
    if ma.cell_methods != mb.cell_methods:
        msgs.append("cube.cell_methods differ")
    if ca.shape != cb.shape:
        msgs.append("cube.shape differs: {} != {}".format(ca.shape, cb.shape))
    if ca.dtype != cb.dtype:
        msgs.append("cube data dtype differs: {} != {}".format(ca.dtype, cb.dtype))
    sa = [(c.metadata, c.has_bounds()) for c in a.scalars]
    sb = [(c.metadata, c.has_bounds()) for c in b.scalars]
    if len(sa) != len(sb) or not all(
        metadata_equal(x[0], y[0]) and type(x[0]) is type(y[0]) and x[1] == y[1]
        for x, y in zip(sa, sb)
    ):
        na, nb = {c.name() for c in a.scalars}, {c.name() for c in b.scalars}
        diff = sorted(na ^ nb) or sorted(
            x.name() for x, y in zip(a.scalars, b.scalars)
            if not metadata_equal(x.metadata, y.metadata))
        msgs.append("Coordinates in cube.aux_coords (scalar) differ: %s" % ", ".join(diff))
    if len(a.vectors) != len(b.vectors) or not all(
        x[1] == y[1] and x[0] == y[0] and type(x[0]) is type(y[0])
        for x, y in zip(a.vectors, b.vectors)
    ):
        da = {c.name() for c, _ in a.vectors}
        db = {c.name() for c, _ in b.vectors}
        diff = sorted(da ^ db) or sorted(
            x[0].name() for x, y in zip(a.vectors, b.vectors) if not x[0] == y[0])
        msgs.append("Coordinates in cube.dim_coords differ: %s" % ", ".join(diff))
    return msgs


def _unique(seq):
    return list(OrderedDict.fromkeys(seq))


def _factor(rows, names):
    """Split the varying columns into dimensions.

    rows: list of tuples (ranks of the value in each varying column).
    Returns a list of groups; a group is (columns that define the dim, is_joint).
    """
    n = len(rows)
    if not names:
        return []
    counts = {c: len(set(r[c] for r in rows)) for c in names}
    # smallest, earliest set of columns whose full product is the set of rows
    for size in range(1, len(names) + 1):
        for sub in itertools.combinations(names, size):
            prod = 1
            for c in sub:
                prod *= counts[c]
            if prod != n or any(counts[c] == 1 for c in sub):
                continue
            if len(set(tuple(r[c] for c in sub) for r in rows)) == n:
                return [([c], False) for c in sub]
    # factor out single columns independent of the rest
    for c in names:
        rest = [d for d in names if d != c and len(
            set((r[c], r[d]) for r in rows)) != max(counts[c], 0)]
        rest_rows = set(tuple(r[d] for d in rest) for r in rows)
        if counts[c] > 1 and rest and counts[c] * len(rest_rows) == n and (
            len(set((r[c],) + tuple(r[d] for d in rest) for r in rows)) == n
        ):
            sub = _unique(rows_to_sub(rows, rest))
            return [([c], False)] + _factor(sub, rest)
    return [(list(names), True)]


def rows_to_sub(rows, rest):
    return [{c: r[c] for c in rest} if False else _Row((c, r[c]) for c in rest)
            for r in rows]


class _Row(tuple):
    def __new__(cls, items):
        items = tuple(items)
        self = tuple.__new__(cls, items)
        self._map = dict(items)
        return self

    def __getitem__(self, key):
        return self._map[key]


def _merge_group(skeletons):
    first = skeletons[0]
    if len(skeletons) == 1:
        return first.cube.copy()
    ncols = len(first.scalars)
    columns = []
    for i in range(ncols):
        vals = [s.values[i] for s in skeletons]
        try:
            uniq = sorted(set(vals), key=lambda v: (v[0], v[1] or ()))
        except TypeError:
            uniq = _unique(vals)
        columns.append((uniq, [uniq.index(v) for v in vals]))
    varying = [i for i in range(ncols) if len(columns[i][0]) > 1]
    rows = [tuple(columns[i][1][k] for i in range(ncols)) for k in range(len(skeletons))]
    dims = _factor(rows, varying)
    dims = sorted(dims, key=lambda g: (
        _DIM_AXIS.get(guess_coord_axis(first.scalars[g[0][0]]), 0),
        first.scalars[g[0][0]].name()))
    # positions along each dim
    dim_keys = []
    for cols, joint in dims:
        keys = sorted(set(tuple(r[c] for c in cols) for r in rows))
        dim_keys.append(keys)
    shape = tuple(len(k) for k in dim_keys)
    where = {}
    for r, s in zip(rows, skeletons):
        pos = tuple(dim_keys[d].index(tuple(r[c] for c in cols))
                    for d, (cols, _) in enumerate(dims))
        if pos in where:
            raise MergeError(["An unexpected problem prevented merging."])
        where[pos] = s
    if len(where) != int(np.prod(shape)):
        raise MergeError(["An unexpected problem prevented merging."])
    from .cube import Cube

    nd = len(shape)
    order = list(np.ndindex(*shape))
    pieces = [where[p].cube.core_data() for p in order]
    if any(is_lazy_data(p) for p in pieces):
        import dask.array as da

        stacked = da.stack([da.asarray(p, asarray=False) if not is_lazy_data(p) else p
                            for p in pieces])
        data = stacked.reshape(shape + first.cube.shape)
    elif any(np.ma.isMaskedArray(p) for p in pieces):
        data = np.ma.stack([np.ma.asarray(p) for p in pieces]).reshape(
            shape + first.cube.shape)
        fv = [p for p in pieces if np.ma.isMaskedArray(p)][0].fill_value
        data.set_fill_value(fv)
    else:
        data = np.stack(pieces).reshape(shape + first.cube.shape)
    cube = Cube(data)
    cube.metadata = first.cube.metadata
    defining = {}
    for d, (cols, joint) in enumerate(dims):
        if not joint:
            defining[cols[0]] = d
    new_coords = []
    for i, coord in enumerate(first.scalars):
        if i not in varying:
            new_coords.append((coord.copy(), (), False))
            continue
        # which dims does the column depend on
        if i in defining:
            on = (defining[i],)
        else:
            on = _depends(i, rows, dims, dim_keys, order, where, skeletons)
        sub_shape = tuple(shape[d] for d in on)
        pts, bnds = [], []
        for idx in np.ndindex(*sub_shape):
            pos = [0] * nd
            for d, k in zip(on, idx):
                pos[d] = k
            sk = where[tuple(pos)]
            p, b = sk.values[i]
            pts.append(p)
            bnds.append(b)
        if coord.dtype.kind in "SU":
            parr = np.array(pts).reshape(sub_shape)
        else:
            parr = np.array(pts, dtype=coord.dtype).reshape(sub_shape)
        barr = None
        if bnds[0] is not None:
            barr = np.array(bnds, dtype=coord.bounds.dtype).reshape(sub_shape + (-1,))
        kw = dict(standard_name=coord.standard_name, long_name=coord.long_name,
                  var_name=coord.var_name, units=coord.units, bounds=barr,
                  attributes=coord.attributes, coord_system=coord.coord_system)
        new = None
        if len(on) == 1:
            try:
                new = DimCoord(parr, **kw)
            except ValueError:
                new = None
        is_dim = new is not None and i in defining
        if new is None or not (i in defining or isinstance(coord, DimCoord) or True):
            new = AuxCoord(parr, **kw)
        elif not is_dim and not isinstance(coord, DimCoord):
            new = AuxCoord(parr, **kw)
        new_coords.append((new, on, is_dim))
    for new, on, is_dim in new_coords:
        if is_dim:
            cube.add_dim_coord(new, on[0])
    for coord, cdims in first.vectors:
        shifted = tuple(d + nd for d in cdims)
        if any(coord is c for c in first.cube.dim_coords):
            cube.add_dim_coord(coord.copy(), shifted[0])
    for new, on, is_dim in new_coords:
        if not is_dim:
            cube.add_aux_coord(new, on)
    for coord, cdims in first.vectors:
        shifted = tuple(d + nd for d in cdims)
        if not any(coord is c for c in first.cube.dim_coords):
            cube.add_aux_coord(coord.copy(), shifted)
    for item, idims in first.cube._ancillary_variables_and_dims:
        cube.add_ancillary_variable(item.copy(), tuple(d + nd for d in idims))
    for item, idims in first.cube._cell_measures_and_dims:
        cube.add_cell_measure(item.copy(), tuple(d + nd for d in idims))
    return cube


def _depends(i, rows, dims, dim_keys, order, where, skeletons):
    value = {}
    for pos in order:
        value[pos] = where[pos].values[i]
    nd = len(dims)
    for size in range(1, nd + 1):
        for sub in itertools.combinations(range(nd), size):
            seen = {}
            ok = True
            for pos in order:
                k = tuple(pos[d] for d in sub)
                if seen.setdefault(k, value[pos]) != value[pos]:
                    ok = False
                    break
            if ok:
                return sub
    raise MergeError(["An unexpected problem prevented merging."])


def _duplicates_check(group):
    seen = set()
    for s in group:
        key = tuple(s.values)
        if key in seen:
            name = s.cube.metadata.name()
            scalars = ", ".join("%s=%s" % (c.name(), v) for c, v in zip(
                s.scalars, s.values))
            raise DuplicateDataError(
                "Duplicate %r cube, with scalar coordinates %s" % (name, scalars))
        seen.add(key)


def merge(cubes, unique=True):
    from .cube import CubeList

    by_name = OrderedDict()
    for cube in cubes:
        sk = _Skeleton(cube)
        groups = by_name.setdefault(cube.name(), [])
        for g in groups:
            if not _differences(g[0], sk):
                g.append(sk)
                break
        else:
            groups.append([sk])
    result = CubeList()
    for name in sorted(by_name):
        for group in by_name[name]:
            if unique:
                _duplicates_check(group)
                result.append(_merge_group(group))
            else:
                remaining = list(group)
                while remaining:
                    seen, now, later = set(), [], []
                    for s in remaining:
                        key = tuple(s.values)
                        (later if key in seen else now).append(s)
                        seen.add(key)
                    result.append(_merge_group(now))
                    remaining = later
    return result


def merge_cube(cubes):
    if not cubes:
        raise ValueError("can't merge an empty CubeList")
    group = [_Skeleton(cubes[0])]
    for cube in cubes[1:]:
        sk = _Skeleton(cube)
        diffs = _differences(group[0], sk)
        if diffs:
            raise MergeError(diffs)
        group.append(sk)
    _duplicates_check(group)
    return _merge_group(group)
