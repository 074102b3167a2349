"""Hypothesis strategies shared by the checks (driver side, CPython)."""
from hypothesis import strategies as st

composite = st.composite
integers = st.integers
booleans = st.booleans
sampled = st.sampled_from
one_of = st.one_of
just = st.just
lists = st.lists


def fixed(n, elements):
    return st.lists(elements, min_size=n, max_size=n)


def size(shape):
    n = 1
    for k in shape:
        n *= k
    return n


def grid_ints(lo, hi, step=1.0):
    """Values k*step with lo <= k*step <= hi (exact in float32 for binary steps)."""
    return st.integers(int(round(lo / step)), int(round(hi / step))).map(
        lambda k: k * step)


@st.composite
def field(draw, shape, elements, palette=True):
    """Flat list of values for an array of this shape: either free values, or values from
    a small palette (ties, plateaus), or constant."""
    n = size(shape)
    if n == 0:
        return []
    kind = draw(st.sampled_from(["free", "free", "palette", "const"])) if palette else "free"
    if kind == "const":
        return [draw(elements)] * n
    if kind == "palette":
        pal = draw(st.lists(elements, min_size=2, max_size=4))
        return [pal[i] for i in draw(fixed(n, st.integers(0, len(pal) - 1)))]
    return draw(fixed(n, elements))


@st.composite
def mask(draw, shape, p_none=0.5):
    """None, or a flat list of 0/1."""
    n = size(shape)
    kind = draw(st.sampled_from(["none", "none", "some", "some", "zero", "row"]))
    if kind == "none":
        return None
    if kind == "zero":
        return [0] * n
    if kind == "row":
        last = shape[-1]
        col = draw(st.integers(0, last - 1))
        return [1 if i % last == col else 0 for i in range(n)]
    bits = draw(st.integers(0, 2 ** min(n, 200) - 1))
    sparse = draw(st.integers(0, 2 ** min(n, 200) - 1))
    bits &= sparse
    return [(bits >> (i % 200)) & 1 for i in range(n)]


@st.composite
def masked_field(draw, shape, elements):
    return {"shape": list(shape), "values": draw(field(shape, elements)),
            "mask": draw(mask(shape))}


@st.composite
def xy_grid(draw, min_n=1, max_n=6, kinds=("laea", "latlon"), desc=True, square=False,
            bounds=None):
    kind = draw(st.sampled_from(list(kinds)))
    ny = draw(st.integers(min_n, max_n))
    nx = draw(st.integers(min_n, max_n))
    if kind == "laea":
        dy = draw(st.sampled_from([2000, 1000, 2000]))
        dx = dy if square or draw(st.booleans()) else draw(st.sampled_from([1000, 2000, 4000]))
        y0 = draw(st.integers(-20, 20)) * 1000
        x0 = draw(st.integers(-20, 20)) * 1000
    else:
        dy = draw(st.sampled_from([1, 2, 0.5]))
        dx = dy if square or draw(st.booleans()) else draw(st.sampled_from([1, 2, 0.25]))
        y0 = draw(st.integers(-60, 50))
        x0 = draw(st.integers(-170, 150))
    return {
        "kind": kind, "ny": ny, "nx": nx, "dy": dy, "dx": dx, "y0": y0, "x0": x0,
        "ydesc": bool(desc and draw(st.integers(0, 4)) == 0),
        "xdesc": bool(desc and draw(st.integers(0, 6)) == 0),
        "bounds": draw(st.booleans()) if bounds is None else bounds,
    }


@st.composite
def times(draw, period=True):
    """Time scalars: frt (s since epoch), forecast period (s), optional bounds length (s)."""
    frt = 1510286400 + 3600 * draw(st.integers(0, 48))
    fp = 3600 * draw(st.integers(0, 36))
    return {"frt": frt, "fp": fp,
            "period": draw(st.sampled_from([None, None, 3600, 10800])) if period else None}


def permutation(n):
    return st.permutations(list(range(n)))


@st.composite
def layout(draw, main, leads=("none", "none", "time", "realization"), spot=True, max_n=3,
           pos=True):
    """Shape of a cube with a main dimension of length `main` (0: no such dimension, i.e. a
    scalar coordinate), possibly another leading dimension, and y / x or sites."""
    lead = draw(st.sampled_from(list(leads)))
    k = 0 if lead == "none" else draw(st.integers(1, 3))
    is_spot = bool(spot and draw(st.integers(0, 3)) == 0)
    grid = draw(xy_grid(1, max_n))
    space = [grid["nx"]] if is_spot else [grid["ny"], grid["nx"]]
    dims = (["main"] if main else []) + ([lead] if k else [])
    if pos and draw(st.integers(0, 2)) == 0:
        dims = draw(st.permutations(dims + ["y", "x"])) if not is_spot else draw(
            st.permutations(dims + ["site"]))
    else:
        dims = dims + (["site"] if is_spot else ["y", "x"])
    return {"lead": lead, "k": k, "spot": is_spot, "grid": grid, "dims": list(dims),
            "inner": ([k] if k else []) + space, "times": draw(times())}
