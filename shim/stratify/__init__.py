"""Stand-in for python-stratify: linear vertical interpolation to levels of constant value.

In each column the first crossing of the target value (in the direction given by `rising`, or by
the ends of the column) is found, scanning from the start of the axis; outside the range of the
column the result is nan or the value at the nearest end."""
import numpy as np

EXTRAPOLATE_NAN = "nan"
EXTRAPOLATE_NEAREST = "nearest"
INTERPOLATE_LINEAR = "linear"


def _column(target, z, f, rising, extrapolation):
    if rising is None:
        ends = z[np.isfinite(z)]
        rising = bool(ends.size == 0 or ends[-1] >= ends[0])
    if not rising:
        z, target = -z, -target
    for i in range(len(z)):
        if z[i] == target:
            return f[i]
        if i and z[i - 1] < target < z[i]:
            w = (target - z[i - 1]) / (z[i] - z[i - 1])
            return f[i - 1] + w * (f[i] - f[i - 1])
    if extrapolation == EXTRAPOLATE_NEAREST and len(z) and not np.isnan(z).any():
        return f[0] if target < z[0] else f[-1]
    return np.nan


def interpolate(z_target, z_src, fz_src, axis=-1, rising=None,
                interpolation=INTERPOLATE_LINEAR, extrapolation=EXTRAPOLATE_NAN):
    z_target = np.asarray(z_target)
    z = np.moveaxis(np.asarray(z_src, dtype=np.float64), axis, -1)
    f = np.moveaxis(np.asarray(fz_src), axis, -1)
    if z.shape != f.shape or z_target.ndim != 1 or interpolation != INTERPOLATE_LINEAR:
        raise NotImplementedError("stratify stand-in: shapes %s, %s, %s" % (
            z.shape, f.shape, z_target.shape))
    out = np.empty(z.shape[:-1] + (len(z_target),), dtype=f.dtype if f.dtype.kind == "f" else float)
    for index in np.ndindex(*z.shape[:-1]):
        for k, target in enumerate(z_target):
            out[index + (k,)] = _column(float(target), z[index], f[index].astype(float), rising,
                                        extrapolation)
    return np.moveaxis(out, -1, axis)
