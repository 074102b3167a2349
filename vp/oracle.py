"""Oracle helpers used in the worker."""
import numpy as np

LABELS = set()


class Violation(AssertionError):
    pass


class Reject(Exception):
    """The case is outside the scope of the property."""


class Known(Exception):
    """A violation listed in known_findings.txt."""


def label(*names):
    LABELS.update(str(n) for n in names)


def known_keys():
    import os
    import re

    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                        "known_findings.txt")
    with open(path) as fh:
        return dict(re.findall(r"^known: property=\w+ key=(\S+) (.*)$", fh.read(), re.M))


def known(key):
    """This case shows the listed finding: neither judged nor silently passed."""
    text = known_keys().get(key)
    if text is None:
        raise Violation("finding %s is not listed in known_findings.txt" % key)
    raise Known(text)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def reject(msg="out of scope"):
    raise Reject(msg)


def raises(exc_types, func, *args, **kwargs):
    """Call must raise one of exc_types."""
    try:
        result = func(*args, **kwargs)
    except exc_types:
        return
    raise Violation("expected %s from %s, got a result: %r" % (
        exc_types, getattr(func, "__name__", func), result))


def plain(a):
    """(float64 data, bool mask) of an array."""
    mask = np.ma.getmaskarray(a)
    data = np.ma.getdata(a)
    return data, np.array(mask)


def show(a):
    a = np.ma.asarray(a) if np.ma.isMaskedArray(a) else np.asarray(a)
    if a.size <= 60:
        return str(a.tolist())
    return "shape %s: %s..." % (a.shape, a.ravel()[:40].tolist())


def close(got, want, what="values", rtol=1e-5, atol=1e-6, nan=True):
    """Compare unmasked arrays, NaN equal to NaN."""
    g = np.asarray(np.ma.getdata(got), dtype=np.float64)
    w = np.asarray(want, dtype=np.float64)
    if g.shape != w.shape:
        raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape))
    with np.errstate(all="ignore"):
        ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w)
        if nan:
            ok |= np.isnan(g) & np.isnan(w)
    if not ok.all():
        idx = tuple(int(i[0]) for i in np.where(~ok))
        raise Violation("%s: at %s got %r, expected %r\n got  %s\n want %s" % (
            what, idx, float(g[idx]), float(w[idx]), show(g), show(w)))


def close_masked(got, want, want_mask, what="values", rtol=1e-5, atol=1e-6):
    """Masks equal, and values equal where unmasked."""
    g, gm = plain(got)
    want_mask = np.broadcast_to(np.asarray(want_mask, dtype=bool), g.shape) if (
        np.ndim(want_mask) <= g.ndim) else want_mask
    if g.shape != np.shape(want):
        raise Violation("%s: shape %s, expected %s" % (what, g.shape, np.shape(want)))
    if not np.array_equal(gm, want_mask):
        raise Violation("%s: mask %s, expected %s (data %s)" % (
            what, show(gm), show(want_mask), show(g)))
    w = np.where(want_mask, 0.0, np.asarray(want, dtype=np.float64))
    close(np.where(gm, 0.0, g.astype(np.float64)), w, what, rtol, atol)


def equal(got, want, what="value"):
    if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
        ok = np.shape(got) == np.shape(want) and np.array_equal(got, want)
    else:
        ok = got == want
    if not ok:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


def within(a, lo, hi, what="values", tol=0.0):
    d, m = plain(a)
    d = d[~m].astype(np.float64)
    if np.isnan(d).any() or (d < lo - tol).any() or (d > hi + tol).any():
        raise Violation("%s outside [%s, %s]: %s" % (what, lo, hi, show(a)))


def snapshot(cube):
    """Everything observable of a cube, for 'inputs unchanged' checks."""
    data = cube.data
    return (
        cube.name(), str(cube.units), cube.var_name, dict(cube.attributes), cube.cell_methods,
        np.array(np.ma.getdata(data)), np.array(np.ma.getmaskarray(data)),
        str(data.dtype),
        [(c.name(), cube.coord_dims(c), c.points.copy(), str(c.points.dtype),
          None if c.bounds is None else c.bounds.copy(), str(c.units))
         for c in cube.coords()],
    )


def _same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind == "f" and b.dtype.kind == "f":
            return bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
        return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a)
    return a == b


def unchanged(before, cube, what="input cube"):
    after = snapshot(cube)
    names = ["name", "units", "var_name", "attributes", "cell_methods", "data", "mask",
             "dtype", "coords"]
    for n, a, b in zip(names, before, after):
        if n == "data":
            a = np.where(before[6], 0, a)
            b = np.where(after[6], 0, b) if b.shape == after[6].shape else b
        if not _same(a, b):
            a, b = [show(x) if isinstance(x, np.ndarray) else repr(x) for x in (a, b)]
            raise Violation("%s was modified (%s): %s -> %s" % (what, n, a, b))


def same_coord(a, b, what="coordinate", exact=True):
    if a.shape != b.shape or not (
        np.array_equal(a.points, b.points) if exact or a.dtype.kind not in "f"
        else np.allclose(a.points, b.points, rtol=1e-6)
    ):
        raise Violation("%s %s: points %s, expected %s" % (
            what, b.name(), a.points, b.points))
    if a.name() != b.name() or a.units != b.units:
        raise Violation("%s: %s/%s, expected %s/%s" % (
            what, a.name(), a.units, b.name(), b.units))
    if (a.bounds is None) != (b.bounds is None) or (
        a.bounds is not None and not np.array_equal(a.bounds, b.bounds)
    ):
        raise Violation("%s %s: bounds %s, expected %s" % (
            what, b.name(), a.bounds, b.bounds))


def dim_order(result, cube):
    """Dimensions of result in the order of the dimension coordinates of cube (a merge may
    have re-ordered them; the order of leading dimensions is then not judged)."""
    names = [c.name() for c in cube.coords(dim_coords=True)]
    got = [c.name() for c in result.coords(dim_coords=True)]
    equal(sorted(got), sorted(names), "dimensions")
    return [result.coord_dims(n)[0] for n in names]
