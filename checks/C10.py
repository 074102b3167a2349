"""C10: the netCDF comparison reports exactly the differences between two files."""
import os
import shutil
import tempfile

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: generated files with dimensions, coordinate and data variables of eight types "
        "(NaN, infinities and fill values included), attributes of six kinds and nested groups, "
        "compared with copies that carry 0-3 changes, with tolerances, excluded variables, "
        "ignored attributes and either reporter; non-trivial when a change was made")
QUICK = 4000
THOROUGH = 40000
TYPES = ["f4", "f8", "i1", "i4", "i8", "str", "S1", "u1"]
ATTRS = ["units", "title", "valid_range", "_FillValue", "history", "scale_factor", "um_version"]


def gen():
    from vp import gens as g

    value = g.sampled([0.0, 1.0, -1.0, 2.5, 1000.0, 1e5, 1e-3, float("nan"), float("inf"), 273.15])
    attr = g.one_of(
        g.sampled(["m s-1", "K", "", "0 0"]).map(lambda v: {"t": "str", "v": v}),
        g.integers(-3, 3).map(lambda v: {"t": "int", "v": v}),
        g.sampled([0.0, 1.0, 0.5, float("nan")]).map(lambda v: {"t": "f8", "v": v}),
        g.sampled([0.0, 1.0, 0.5, float("nan")]).map(lambda v: {"t": "f4", "v": v}),
        g.lists(g.sampled([0.0, 1.0, float("nan")]), min_size=2, max_size=3).map(
            lambda v: {"t": "arr", "v": v}),
        g.lists(g.sampled(["a", "b c"]), min_size=2, max_size=3).map(
            lambda v: {"t": "list", "v": v}))

    @g.composite
    def attrs(draw):
        names = draw(g.lists(g.sampled(ATTRS), max_size=3, unique=True))
        return {n: draw(attr) for n in names if n != "_FillValue"}

    @g.composite
    def variable(draw, name, dims):
        t = draw(g.sampled(TYPES))
        if name in dims:
            t, vd = draw(g.sampled(["f4", "i8"])), [name]
        else:
            vd = draw(g.lists(g.sampled(sorted(dims)), max_size=2, unique=True)) if dims else []
        shape = [dims[d] for d in vd]
        vals = draw(g.field(shape, value))
        if not vd:
            vals = [draw(value)]
        a = draw(attrs())
        if draw(g.integers(0, 2)) == 0 and t in ("f4", "f8"):
            a["_FillValue"] = {"t": t, "v": draw(g.sampled([float("nan"), -999.0, 1.0]))}
        return {"type": t, "dims": vd, "values": vals, "attrs": a}

    @g.composite
    def group(draw, depth, outer, nest=False):
        own = {d: draw(g.integers(1, 3)) for d in draw(g.lists(g.sampled(
            ["x", "y", "bnds"]), max_size=2 if not depth else 1, unique=True))}
        dims = dict(outer, **own)
        names = draw(g.lists(g.sampled(["wind", "temp", "crs"]), min_size=1, max_size=2,
                             unique=True))
        names += [d for d in own if d != "bnds" and draw(g.booleans())]
        out = {"dims": own, "attrs": draw(attrs()),
               "vars": {n: draw(variable(n, dims)) for n in names}, "groups": {}}
        if depth < 2 and (draw(g.integers(0, 2)) == 0 or (nest and not depth)):
            for n in draw(g.lists(g.sampled(["g1", "g2"]), min_size=1, max_size=2,
                                  unique=True)):
                out["groups"][n] = draw(group(depth + 1, dims))
        return out

    change = g.fixed(7, g.integers(0, 59))

    @g.composite
    def case(draw):
        # a share of the cases has values that just pass or just fail, often in a nested group
        near = draw(g.integers(0, 3)) == 0
        changes = draw(g.lists(change, min_size=int(near), max_size=3))
        tols = draw(g.sampled([[1e-2, 0.0], [0.0, 1e-2], [1e-2, 1e-5], [1e-5, 1e-2]])) if near else [
            draw(g.sampled([0.0, 1e-5, 1e-2])) for _ in range(2)]
        if near:
            changes = [[x[0] % 2] + x[1:] for x in changes]
        return {"model": draw(group(0, {}, near)), "changes": changes, "rtol": tols[0], "atol": tols[1],
                "new": draw(attr),
                "exclude": draw(g.sampled([None, None, [], ["temp"], ["x"], ["crs", "wind"]])),
                "ignore": draw(g.sampled([None, None, [], ["history"], ["units", "title"],
                                          ["_FillValue"]])),
                "how": draw(g.sampled(["collect", "collect", "raise"])),
                "missing": draw(g.integers(0, 29))}

    return case()


def all_groups(m, outer=None):
    dims = dict(outer or {}, **m["dims"])
    yield m, dims
    for n in sorted(m["groups"]):
        for x in all_groups(m["groups"][n], dims):
            yield x


def mutate(model, ch, tol, new):
    """One change somewhere in the model (in place)."""
    kind, a, b, c_, d, _, _ = ch
    groups = list(all_groups(model))
    m, dims = groups[a % len(groups)]
    names = sorted(m["vars"])
    kind = ["big", "small", "attr", "addattr", "delattr", "type", "addvar", "delvar", "dim",
            "group", "delgroup", "attrtype", "tiny-coord", "nan", "shape"][kind % 15]
    v = m["vars"][names[b % len(names)]] if names else None
    owner = m if d % 2 or v is None else v
    if kind in ("big", "small", "tiny-coord", "nan", "shape") and any(
            w["values"] is None for w in m["vars"].values()):
        return
    if kind in ("big", "small", "tiny-coord", "nan") and v is not None:
        if kind == "tiny-coord":
            coords = [n for n in names if n in dims]
            if not coords:
                return
            v = m["vars"][coords[b % len(coords)]]
        i = c_ % max(1, len(v["values"]))
        x = v["values"][i]
        if kind == "nan":
            v["values"][i] = float("nan")
        elif np.isfinite(x):
            t = tol[1] + tol[0] * abs(x)
            if kind == "big":
                v["values"][i] = x + (30.0 * t if 30.0 * t > 1e-3 else 1.0)
            elif t > 0 and v["type"] in ("f4", "f8"):
                v["values"][i] = x + 0.2 * t
    elif kind == "attr" and owner["attrs"]:
        n = sorted(owner["attrs"])[c_ % len(owner["attrs"])]
        w = owner["attrs"][n]
        if w["t"] == "str":
            w["v"] += "x"
        elif w["t"] in ("arr", "list"):
            w["v"] = list(w["v"])
            w["v"][-1] = "z" if w["t"] == "list" else 7.0
            if c_ % 3 == 0:
                w["v"].append(w["v"][0])
        else:
            w["v"] = 5 if w["t"] == "int" else 5.0
    elif kind == "attrtype" and owner["attrs"]:
        n = sorted(owner["attrs"])[c_ % len(owner["attrs"])]
        if n != "_FillValue":
            owner["attrs"][n] = dict(new)
    elif kind == "addattr":
        n = ATTRS[c_ % len(ATTRS)]
        if n != "_FillValue":
            owner["attrs"][n] = dict(new)
    elif kind == "delattr" and owner["attrs"]:
        del owner["attrs"][sorted(owner["attrs"])[c_ % len(owner["attrs"])]]
    elif kind == "type" and v is not None:
        t = "str" if c_ % 5 == 0 else {"f4": "f8", "f8": "f4", "i1": "i4", "i4": "i8", "i8": "i4", "u1": "i1"}.get(
            v["type"])
        if t:
            v["type"] = t
            if t == "str":
                v["attrs"].pop("_FillValue", None)
            elif "_FillValue" in v["attrs"]:
                v["attrs"]["_FillValue"]["t"] = t
    elif kind == "addvar":
        m["vars"]["extra%d" % (c_ % 2)] = {"type": "f4", "dims": [], "values": [1.0],
                                           "attrs": {}}
    elif kind == "delvar" and v is not None:
        del m["vars"][names[b % len(names)]]
    elif kind == "dim":
        if m["dims"]:
            n = sorted(m["dims"])[b % len(m["dims"])]
            m["dims"][n] += 1
            resize(m, n)
    elif kind == "shape" and v is not None and names[b % len(names)] not in dims:
        v["dims"], v["values"] = [], v["values"][:1] or [1.0]
    elif kind == "group":
        m["groups"]["new"] = {"dims": {}, "attrs": {}, "vars": {}, "groups": {}}
    elif kind == "delgroup" and m["groups"]:
        del m["groups"][sorted(m["groups"])[b % len(m["groups"])]]


def resize(m, dim):
    """Repeat the first value so that data fits a longer dimension."""
    for v in m["vars"].values():
        if dim in v["dims"]:
            v["values"] = None
    for g in m["groups"].values():
        if dim not in g["dims"]:
            resize(g, dim)


def complete(model):
    for m, dims in all_groups(model):
        for v in m["vars"].values():
            n = 1
            for d in v["dims"]:
                n *= dims[d]
            if v["values"] is None:
                v["values"] = [1.0] * n
            v["shape"] = [dims[d] for d in v["dims"]]
            v["array"] = to_array(v)


def to_array(v):
    x = np.array(v["values"], np.float64)
    t = v["type"]
    if t == "str":
        a = np.empty(x.shape, dtype=object)
        a[:] = ["n%g" % y for y in x]
    elif t == "S1":
        a = np.array([b"abcd"[int(abs(y)) % 4:][:1] if np.isfinite(y) else b"n" for y in x],
                     dtype="S1")
    elif t in ("f4", "f8"):
        a = x.astype(t)
    else:
        a = np.where(np.isfinite(x), np.clip(np.nan_to_num(x), -100 if t[0] == "i" else 0, 100),
                     99).astype(t)
    return a.reshape(v["shape"])


def attr_value(w):
    t, v = w["t"], w["v"]
    return {"str": lambda: v, "int": lambda: np.int64(v), "f8": lambda: np.float64(v),
            "f4": lambda: np.float32(v), "arr": lambda: np.array(v, np.float64),
            "list": lambda: list(v)}[t]()


def write(path, model):
    import netCDF4

    def fill(ds, m):
        for n, k in m["dims"].items():
            ds.createDimension(n, k)
        for n, v in m["vars"].items():
            kw = {}
            if "_FillValue" in v["attrs"]:
                kw["fill_value"] = attr_value(v["attrs"]["_FillValue"])
            var = ds.createVariable(n, str if v["type"] == "str" else v["type"],
                                    tuple(v["dims"]), **kw)
            var.set_auto_maskandscale(False)
            for k, w in v["attrs"].items():
                if k != "_FillValue":
                    var.setncattr(k, attr_value(w))
            if v["type"] == "str" and not v["dims"]:
                var[0] = v["array"].item()
            else:
                var[...] = v["array"]
        for k, w in m["attrs"].items():
            ds.setncattr(k, attr_value(w))
        for n, gm in m["groups"].items():
            fill(ds.createGroup(n), gm)

    ds = netCDF4.Dataset(path, "w", format="NETCDF4")
    fill(ds, model)
    ds.close()


def same_value(a, b):
    if isinstance(a, (list, str)):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())


def attr_diffs(a, b, ignore, out, where):
    na, nb = set(a) - set(ignore), set(b) - set(ignore)
    for n in na ^ nb:
        out.append((n, where))
    for n in na & nb:
        x, y = attr_value(a[n]), attr_value(b[n])
        if type(x) is not type(y) or not same_value(x, y):
            out.append((n, where))


def diffs(a, b, rtol, atol, exclude, ignore, out, where="root"):
    """Every differing thing, as the words its report must contain."""
    attr_diffs(a["attrs"], b["attrs"], ignore, out, where)
    for n in set(a["groups"]) ^ set(b["groups"]):
        out.append((n,))
    da, db = set(a["dims"]) - set(exclude), set(b["dims"]) - set(exclude)
    for n in da ^ db:
        out.append((n,))
    for n in da & db:
        if a["dims"][n] != b["dims"][n]:
            out.append((n, str(a["dims"][n]), str(b["dims"][n])))
    va, vb = set(a["vars"]) - set(exclude), set(b["vars"]) - set(exclude)
    for n in va ^ vb:
        out.append((n,))
    both = va & vb
    coords = {d for n in both for d in b["vars"][n]["dims"]} & both
    for n in sorted(both):
        x, y = a["vars"][n], b["vars"][n]
        attr_diffs(x["attrs"], y["attrs"], ignore, out, n)
        if x["type"] != y["type"]:
            out.append((n, "type"))
        p, q = x["array"], y["array"]
        if p.shape != q.shape:
            out.append((n, "data"))
            continue
        if "str" in (x["type"], y["type"]) or "S1" in (x["type"], y["type"]):
            ok = (p == q).all()
        else:
            r, t = (0.0, 0.0) if n in coords else (rtol, atol)
            p, q = p.astype(np.float64), q.astype(np.float64)
            with np.errstate(all="ignore"):
                okk = np.isfinite(p) & np.isfinite(q) & (np.abs(p - q) <= t + r * np.abs(q))
            ok = (okk | (p == q) | (np.isnan(p) & np.isnan(q))).all()
        if not ok:
            out.append((n, "data"))
    for n in set(a["groups"]) & set(b["groups"]):
        diffs(a["groups"][n], b["groups"][n], rtol, atol, exclude, ignore, out, n)


def run(case):
    import copy

    from improver.utilities.compare import compare_netcdfs

    desired = case["model"]
    complete(copy.deepcopy(desired))
    actual = copy.deepcopy(desired)
    for ch in case["changes"]:
        mutate(actual, ch, (case["rtol"], case["atol"]), case["new"])
    for m, dims in all_groups(actual):
        # a changed outer dimension reaches the variables of inner groups
        for v in m["vars"].values():
            n = 1
            for d in v["dims"]:
                if d not in dims:
                    o.reject("dimension removed")
                n *= dims[d]
            if v["values"] is not None and len(v["values"]) != n:
                v["values"] = None
    complete(actual)
    complete(desired)
    folder = tempfile.mkdtemp(prefix="vp-compare-")
    try:
        pa, pd = os.path.join(folder, "a.nc"), os.path.join(folder, "d.nc")
        write(pa, actual)
        write(pd, desired)
        kw = {"rtol": case["rtol"], "atol": case["atol"], "exclude_vars": case["exclude"],
              "ignored_attributes": case["ignore"]}
        got = []
        compare_netcdfs(pd, pd, reporter=got.append, **kw)
        o.equal(got, [], "differences of a file from itself")
        if case["missing"] < 2:
            paths = [pa, pd]
            paths[case["missing"]] = os.path.join(folder, "none.nc")
            compare_netcdfs(paths[0], paths[1], reporter=got.append, **kw)
            o.equal(len(got), 1, "reports for a missing file")
            o.raises(ValueError, compare_netcdfs, paths[0], paths[1], **kw)
            o.label("missing file")
            return True
        want = []
        diffs(actual, desired, case["rtol"], case["atol"], case["exclude"] or [],
              case["ignore"] or [], want)
        if case["how"] == "raise":
            if want:
                o.raises(ValueError, compare_netcdfs, pa, pd, **kw)
            else:
                compare_netcdfs(pa, pd, **kw)
        else:
            compare_netcdfs(pa, pd, reporter=got.append, **kw)
            if not want:
                o.equal(got, [], "reports although nothing differs")
            for words in want:
                o.check(any(all(w in msg for w in words) for msg in got),
                        "no report mentions %s: %s", words, got)
    finally:
        shutil.rmtree(folder)
    o.label("different" if want else "same", "%d changes" % len(case["changes"]), case["how"])
    return bool(case["changes"])


SUBS = {"compare": Sub(gen, run)}
