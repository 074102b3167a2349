"""C06: box sums, rolling windows, padding helpers and index tools (no cubes)."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: arrays of 2-4 dimensions (sizes 1-8, int and float types, views, C and F "
        "order), window shapes odd/even, square or not, several padding modes; non-trivial "
        "when the window has more than one element and the data are not constant")
QUICK = 12000
THOROUGH = 200000


def gen_box():
    from vp import gens as g

    @g.composite
    def case(draw):
        lead = draw(g.sampled([[], [], [2], [1, 3]]))
        mode = draw(g.sampled(["constant0", "constantk", "edge", "reflect", "none",
                               "cumsum"]))
        lo = {"reflect": 2, "none": 4, "cumsum": 4}.get(mode, 1)
        yx = [draw(g.integers(lo, 8)), draw(g.integers(lo, 8))]
        shape = lead + yx
        return {"shape": shape, "values": draw(g.field(shape, g.grid_ints(-4, 4, 0.25))),
                "box": draw(g.sampled([1, 3, 5, [3, 1], [1, 3], [3, 5], [5, 3], [5]])),
                "dtype": draw(g.sampled(["float64", "float32", "int64", "int32", "int8",
                                         "int16", "uint8", "bool"])),
                "layout": draw(g.sampled(["C", "F", "step", "neg"])),
                "tile": draw(g.sampled([None, None, [2, 3], [5, 4]])),
                "scale": draw(g.sampled([1, 1, 6])), "mode": mode, "k": draw(g.integers(-2, 3)),
                "bad": draw(g.sampled([None] * 12 + [2, 4, 3.0, [3, 2]]))}

    return case()


def layout(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "step":
        big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if how == "neg":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    return a


def extended(a, j0, j1, i0, i1, mode, k):
    """a with j0/j1 rows and i0/i1 columns added before/after."""
    ny, nx = a.shape[-2:]

    def ref(p, n):
        if n == 1:
            return 0
        p = abs(p) % (2 * n - 2)
        return p if p < n else 2 * n - 2 - p

    def index(n, before, after):
        idx = range(-before, n + after)
        if mode == "reflect":
            return [ref(p, n) for p in idx]
        return [min(max(p, 0), n - 1) for p in idx]

    out = a[..., index(ny, j0, j1), :][..., index(nx, i0, i1)]
    if mode.startswith("constant"):
        full = np.full(out.shape, 0.0 if mode == "constant0" else float(k))
        full[..., j0:j0 + ny, i0:i0 + nx] = a
        out = full
    return out


def run_box(case):
    from improver.utilities.neighbourhood_tools import boxsum, pad_boxsum

    a = np.array(case["values"], dtype=np.float64).reshape(case["shape"])
    if case["tile"] is not None:
        a = np.tile(a, case["tile"])
    if "int" in case["dtype"]:
        a = a * 4 * case["scale"]
    if case["dtype"] == "uint8":
        a = np.abs(a)
    if case["dtype"] == "bool":
        a = a > 0
    a = layout(a.astype(case["dtype"]), case["layout"])
    if case["bad"] is not None:
        o.raises(ValueError, boxsum, a, case["bad"])
        o.label("rejected")
        return False
    box = case["box"]
    bj = box if isinstance(box, int) else box[0]
    bi = box if isinstance(box, int) else box[-1]
    arg = box if isinstance(box, int) else tuple(box)
    keep = np.array(a)
    mode = case["mode"]
    ny, nx = a.shape[-2:]
    af = np.array(a, dtype=np.float64)
    if mode in ("none", "cumsum"):
        if ny <= bj or nx <= bi:
            o.reject("array not larger than the window")
        if mode == "none":
            got = boxsum(a, arg)
        else:
            got = boxsum(a.cumsum(-2).cumsum(-1), arg, cumsum=False)
        want = np.zeros(a.shape[:-2] + (ny - bj, nx - bi))
        for j in range(ny - bj):
            for i in range(nx - bi):
                want[..., j, i] = af[..., j + 1:j + 1 + bj, i + 1:i + 1 + bi].sum((-2, -1))
    else:
        if mode == "reflect" and (ny == 1 or nx == 1):
            o.reject("reflection of a single point")
        k = case["k"]
        if case["dtype"] in ("uint8", "bool"):
            k = 1 if k > 0 else 0
        opts = {"constant0": {"mode": "constant"},
                "constantk": {"mode": "constant", "constant_values": k},
                "edge": {"mode": "edge"}, "reflect": {"mode": "reflect"}}[mode]
        got = boxsum(a, arg, **opts)
        pw = extended(af, bj // 2 + 1, bj // 2, bi // 2 + 1, bi // 2, mode, k)
        want = np.zeros(a.shape)
        for dj in range(1, bj + 1):
            for di in range(1, bi + 1):
                want += pw[..., dj:dj + ny, di:di + nx]
        padded = pad_boxsum(a, arg, **opts)
        o.close(padded, pw, "pad_boxsum (%s)" % mode)
    o.close(got, want, "boxsum of %s (%s)" % (box, mode), rtol=1e-5, atol=1e-4)
    o.check(np.array_equal(keep, a), "input modified")
    o.label(mode, case["dtype"], case["layout"])
    return bool(bj * bi > 1 and a.min() != a.max())


def gen_roll():
    from vp import gens as g

    @g.composite
    def case(draw):
        nd = draw(g.integers(1, 4))
        shape = [draw(g.integers(2, 5)) for _ in range(nd)]
        nw = draw(g.integers(1, min(3, nd + 1)))
        pad = draw(g.sampled([None, None, "constant0", "edge"]))
        size = g.sampled([1, 3, 5]) if pad else g.integers(1, 4)
        return {"shape": shape, "values": draw(g.field(shape, g.grid_ints(-9, 9, 1))),
                "window": [draw(size) for _ in range(nw)],
                "layout": draw(g.sampled(["C", "F", "step", "neg"])),
                "pad": pad,
                "writeable": draw(g.booleans())}

    return case()


def run_roll(case):
    from improver.utilities.neighbourhood_tools import pad_and_roll, rolling_window

    a = layout(np.array(case["values"], np.float64).reshape(case["shape"]), case["layout"])
    w = tuple(case["window"])
    nd, nw = a.ndim, len(w)
    keep = np.array(a)
    if case["pad"] is None:
        if nd < nw:
            o.raises(ValueError, rolling_window, a, w)
            return False
        if any(x < y for x, y in zip(a.shape[-nw:], w)):
            o.raises(RuntimeError, rolling_window, a, w)
            return False
        got = rolling_window(a, w, writeable=case["writeable"])
        src = a
    else:
        if nd < nw or any(k % 2 == 0 for k in w):
            o.reject("even window")
        kw = {"mode": "constant"} if case["pad"] == "constant0" else {"mode": "edge"}
        got = pad_and_roll(a, w, writeable=case["writeable"], **kw)
        # reference padding by index arithmetic
        src = np.zeros(a.shape[:nd - nw] + tuple(
            n + 2 * (k // 2) for n, k in zip(a.shape[nd - nw:], w)))
        for idx in np.ndindex(*src.shape):
            s = list(idx)
            inside = True
            for d in range(nw):
                ax = nd - nw + d
                s[ax] -= w[d] // 2
                if not 0 <= s[ax] < a.shape[ax]:
                    inside = False
                    s[ax] = min(max(s[ax], 0), a.shape[ax] - 1)
            src[idx] = a[tuple(s)] if inside or case["pad"] == "edge" else 0.0
        o.equal(got.shape[:nd], a.shape, "shape of pad_and_roll")
    want_shape = src.shape[:nd - nw] + tuple(
        n - k + 1 for n, k in zip(src.shape[nd - nw:], w)) + w
    o.equal(got.shape, want_shape, "shape")
    o.equal(got.flags.writeable, case["writeable"], "writeable flag")
    for idx in np.ndindex(*want_shape[:nd]):
        sl = tuple(idx[:nd - nw]) + tuple(
            slice(idx[nd - nw + d], idx[nd - nw + d] + w[d]) for d in range(nw))
        o.check(np.array_equal(got[idx], src[sl]), "window at %s: %s, expected %s", idx,
                got[idx].tolist(), src[sl].tolist())
    o.check(np.array_equal(keep, a), "input modified")
    o.label("pad" if case["pad"] else "no pad", "nw%d" % nw, case["layout"])
    return bool(np.prod(w) > 1 and a.min() != a.max())


SUBS = {"boxsum": Sub(gen_box, run_box, 2), "windows": Sub(gen_roll, run_roll, 1)}
