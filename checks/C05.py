"""C05: percentiles of a circular neighbourhood."""
import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: 2-3 dimensional fields with ties, radii of 1-3 cells, percentiles in any order "
        "including 0 and 100; non-trivial when the percentiles differ from the input field")
QUICK = 3000
THOROUGH = 40000


def gen():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(3, 8, kinds=("laea",), square=True))
        nr = draw(g.sampled([0, 0, 1, 2, 3]))
        shape = ([nr] if nr else []) + [grid["ny"], grid["nx"]]
        return {"grid": grid, "nr": nr, "shape": shape,
                "values": draw(g.field(shape, draw(g.sampled([
                    g.grid_ints(0, 1, 0.125), g.grid_ints(-20, 20, 0.5)])))),
                "cells": draw(g.integers(1, 3)), "frac": draw(g.sampled([0.0, 0.5])),
                "pcts": draw(g.lists(g.sampled([0, 5, 10, 25, 33.5, 50, 75, 90, 99.5, 100]),
                                     min_size=1, max_size=4, unique=True)),
                "masked": draw(g.integers(0, 8)) == 0,
                "meta": draw(g.booleans()), "times": draw(g.times()),
                "lt": draw(g.sampled([None, None, "exact", "mid", "below", "above"])),
                "bad": draw(g.sampled([None] * 8 + ["nan", "spacing", "lengths"]))}

    return case()


def pad_mean(a, r):
    """Extend by r points on every side with the mean of the r points next to the edge."""
    k = min(r, a.shape[0])
    a = np.concatenate([np.repeat(a[:k].mean(axis=0)[None], r, 0), a,
                        np.repeat(a[-k:].mean(axis=0)[None], r, 0)])
    k = min(r, a.shape[1])
    return np.concatenate([np.repeat(a[:, :k].mean(axis=1)[:, None], r, 1), a,
                           np.repeat(a[:, -k:].mean(axis=1)[:, None], r, 1)], axis=1)


def run(case):
    from improver.nbhood.nbhood import (
        GeneratePercentilesFromANeighbourhood, MetaNeighbourhood)
    from vp import cubes as c

    grid, r = case["grid"], case["cells"]
    data = c.array(case)
    radius = (r + case["frac"]) * grid["dx"]
    half = 0.5 * np.hypot((grid["ny"] - 1) * grid["dy"], (grid["nx"] - 1) * grid["dx"])
    if abs(half - radius) < 1:
        o.reject()
    lead = [c.realization_coord(range(case["nr"]))] if case["nr"] else []
    # radii interpolated to the lead time
    h, dx = case["times"]["fp"] // 3600, grid["dx"]
    radii, lts = {None: (radius, None), "exact": ([float(dx), radius, 2.0 * dx], [h - 3, h, h + 5]),
                  "mid": ([radius - 0.5 * dx, radius + 0.5 * dx], [h - 2, h + 2]),
                  "below": ([radius, 4.0 * dx], [h + 2, h + 4]),
                  "above": ([4.0 * dx, radius], [h - 4, h - 1])}[case["lt"]]
    kw = {"lead_times": lts} if lts else {}

    def make(radii, **kw):
        if case["meta"]:
            return MetaNeighbourhood("percentiles", radii if lts else [radii], neighbourhood_shape="circular",
                                     percentiles=case["pcts"], **kw)
        return GeneratePercentilesFromANeighbourhood(radii, percentiles=case["pcts"], **kw)

    if case["bad"] == "lengths" and lts:
        if not case["meta"]:
            o.raises(ValueError, make, radii, lead_times=lts[:-1])
        return False
    plugin = make(radii, **kw)
    if case["masked"]:
        m = np.zeros(data.shape, bool)
        m.ravel()[0] = True
        cube = c.new_cube(np.ma.masked_array(np.ma.getdata(data), m), "air_temperature", "K",
                          lead + c.yx_coords(grid), c.time_coords(case["times"]))
        o.raises((NotImplementedError, ValueError), plugin, cube)
        return False
    data = np.ma.getdata(data)
    cube = c.new_cube(data, "air_temperature", "K", lead + c.yx_coords(grid),
                      c.time_coords(case["times"]))
    if case["bad"] == "nan":
        cube.data[(0,) * cube.ndim] = np.nan
    elif case["bad"] == "spacing":
        cube.coord(axis="x").bounds = None
        cube.coord(axis="x").points = cube.coord(axis="x").points * np.float32(0.75)
    if radius > half or case["bad"] in ("nan", "spacing"):
        o.raises(ValueError, plugin, cube)
        return False
    before = o.snapshot(cube)
    result = plugin(cube)
    o.unchanged(before, cube)
    o.equal((result.name(), str(result.units), result.dtype), ("air_temperature", "K", np.dtype("f4")), "result")
    pc = result.coord("percentile")
    o.equal(sorted(float(p) for p in pc.points),
            sorted(float(np.float32(p)) for p in case["pcts"]), "percentiles")
    o.equal(str(pc.units), "%", "percentile units")
    want_names = ([] if case["nr"] < 1 else ["realization"]) + (
        ["percentile"] if len(case["pcts"]) > 1 else []) + [
            "projection_y_coordinate", "projection_x_coordinate"]
    o.equal([x.name() for x in result.coords(dim_coords=True)], want_names, "dimensions")
    dims = result.coord_dims(pc)
    d = data.astype(np.float64)
    d = d if case["nr"] else d[None]
    for k, p in enumerate(pc.points):
        got = result.data[tuple(k if ax in dims else slice(None)
                                for ax in range(result.ndim))]
        got = got if case["nr"] else got[None]
        want = np.empty(d.shape)
        for n, sl in enumerate(d):
            pad = pad_mean(sl, r)
            for j in range(sl.shape[0]):
                for i in range(sl.shape[1]):
                    v = sorted(pad[j + b, i + a] for b in range(2 * r + 1)
                               for a in range(2 * r + 1)
                               if (b - r) ** 2 + (a - r) ** 2 <= r * r)
                    pos = (len(v) - 1) * float(p) / 100.0
                    lo = min(int(pos), len(v) - 1)
                    hi = min(lo + 1, len(v) - 1)
                    want[n, j, i] = v[lo] + (pos - lo) * (v[hi] - v[lo])
        o.close(got, want, "percentile %s" % p, rtol=1e-5, atol=2e-5)
    o.label(str(case["lt"]), "n%d" % len(case["pcts"]), "meta" if case["meta"] else "plugin", "r%d" % r)
    return bool(d.min() != d.max())


SUBS = {"percentiles": Sub(gen, run, 1)}
