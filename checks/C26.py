"""C26: the sun, clear-sky radiation, the UV index and the temperature it feels like."""
import datetime
import warnings

import numpy as np

from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: any day, time, latitude and longitude for the solar functions; grids of both kinds for "
        "solar time and accumulated clear-sky radiation with altitudes, turbidities, periods and "
        "steps; fluxes, temperatures, winds, humidities and pressures in several units, with masks "
        "and missing values; non-trivial when the sun rises on some points, or values differ")
QUICK = 3000
THOROUGH = 40000


def eqt(day):
    t = 2 * np.pi * day / 365.0
    return (0.000075 + 0.001868 * np.cos(t) - 0.032077 * np.sin(t) - 0.014615 * np.cos(2 * t)
            - 0.040849 * np.sin(2 * t)) * 12 / np.pi


def solar_time(lon, day, hour):
    return hour + np.asarray(lon, float) / 15 + eqt(day)


def sine(lat, lon, day, hour):
    dec = np.radians(-23.5 * np.cos(np.radians(0.9856 * day + 9.3)))
    h = np.radians((solar_time(lon, day, hour) - 12) * 15)
    p = np.radians(np.asarray(lat, float))
    return np.sin(dec) * np.sin(p) + np.cos(dec) * np.cos(p) * np.cos(h)


def day_hour(t):
    r = t + datetime.timedelta(seconds=t.second)
    return t.timetuple().tm_yday - 1, 24.0 if r.day != t.day else r.hour + r.minute / 60.0


def grid_latlon(cube):
    y, x = cube.coord(axis="y"), cube.coord(axis="x")
    xx, yy = np.meshgrid(x.points.astype(float), y.points.astype(float))
    if y.name() == "latitude":
        return yy, xx
    import cartopy.crs as ccrs

    p = ccrs.PlateCarree().transform_points(x.coord_system.as_cartopy_crs(), xx, yy)
    return p[..., 1], p[..., 0]


def moment(case):
    return datetime.datetime(case["year"], 1, 1) + datetime.timedelta(days=case["day"],
                                                                      seconds=case["sec"])


# ---------------------------------------------------------------- functions
def gen_funcs():
    from vp import gens as g

    @g.composite
    def case(draw):
        n = draw(g.integers(1, 6))
        return {"lat": draw(g.fixed(n, g.integers(-900, 900))), "day": draw(g.integers(0, 364)),
                "lon": draw(g.fixed(n, g.integers(-1800, 3600))), "sec": draw(g.integers(0, 86399)),
                "year": draw(g.sampled([2017, 2020, 2021])), "norm": draw(g.booleans()),
                "dtype": draw(g.sampled(["f4", "f8"])),
                "bad": draw(g.sampled([None] * 8 + ["lat", "day", "hour", "hour2"]))}

    return case()


def run_funcs(case):
    from improver.utilities import solar as s

    t = moment(case)
    day, hour = day_hour(t)
    o.equal(s.get_day_of_year(t), day, "day of the year")
    o.close(s.get_hour_of_day(t), hour, "hour of the day", atol=1e-9)
    lat = (np.array(case["lat"]) / 10.0).astype(case["dtype"])
    lon = (np.array(case["lon"]) / 10.0).astype(case["dtype"])
    bad = case["bad"]
    if bad:
        args = {"lat": (lat + 181, lon, day, hour), "day": (lat, lon, -1, hour),
                "hour": (lat, lon, day, 24.01), "hour2": (lat, lon, day, -0.5)}[bad]
        o.raises(ValueError, s.calc_solar_elevation, *args)
        if bad != "lat":
            o.raises(ValueError, s.calc_solar_time, *args[1:])
            o.raises(ValueError, s.daynight_terminator, *args[1:])
        return True
    dec = -23.5 * np.cos(np.radians(0.9856 * day + 9.3))
    o.close(s.calc_solar_declination(day), dec, "declination", atol=1e-9)
    st = solar_time(lon, day, hour)
    got = np.asarray(s.calc_solar_time(lon, day, hour, normalise=case["norm"]), float)
    if case["norm"]:
        o.within(got, 0, 24, "normalised solar time", 1e-4)
        got = np.where(got - st % 24 > 12, got - 24, np.where(got - st % 24 < -12, got + 24, got))
        st = st % 24
    o.close(got, st, "solar time", atol=1e-4)
    o.close(s.calc_solar_hour_angle(lon, day, hour), (solar_time(lon, day, hour) - 12) * 15,
            "hour angle", atol=1e-3)
    want = sine(lat, lon, day, hour)
    o.close(s.calc_solar_elevation(lat, lon, day, hour, return_sine=True), want, "sine of elevation",
            atol=2e-5)
    ok = np.abs(want) < 0.999
    el = np.asarray(s.calc_solar_elevation(lat, lon, day, hour), float)
    o.close(el[ok], np.degrees(np.arcsin(want[ok])), "elevation", atol=5e-2)
    term = np.asarray(s.daynight_terminator(lon, day, hour), float)
    flat = sine(term, lon, day, hour)
    o.close(flat, np.zeros_like(flat), "elevation at the terminator", atol=1e-4)
    return bool((want > 0).any())


# ---------------------------------------------------------------- derived fields
def gen_fields():
    from vp import gens as g

    @g.composite
    def case(draw):
        grid = draw(g.xy_grid(1, 4))
        n = grid["ny"] * grid["nx"]
        return {"grid": grid, "day": draw(g.integers(0, 364)), "year": draw(g.sampled([2017, 2020])),
                "sec": draw(g.integers(0, 1439)) * 60 + draw(g.sampled([0, 0, 20, 45])),
                "hours": draw(g.sampled([1, 1, 3, 6, 24])), "step": draw(g.sampled([30, 30, 60, 10, 7])),
                "alt": draw(g.sampled([None, None, "zero", "some"])),
                "turb": draw(g.sampled([None, "some"])),
                "alts": draw(g.fixed(n, g.sampled([0, 10, 300, 1500, 4000, 9000]))),
                "turbs": draw(g.fixed(n, g.sampled([1, 2, 3, 5.5]))),
                "title": draw(g.sampled([None, "Mine"])),
                "bad": draw(g.sampled([None] * 8 + ["alt", "turb"]))}

    return case()


def radiation(lat, lon, t, hours, step, alt, turb):
    total, last = 0, None
    n = hours * 60 // step
    for k in range(n + 1):
        now = t - datetime.timedelta(hours=hours) + datetime.timedelta(minutes=step * k)
        day, hour = day_hour(now)
        s = np.clip(sine(lat, lon, day, hour), -1, 1)
        el = np.degrees(np.arcsin(s))
        up = el > 0
        mass = np.where(up, 1 / (np.where(up, s, 1)
                                 + 0.50572 * np.where(up, 6.07995 + el, 1) ** -1.6364), 0)
        ext = 1367.7 * (1 + 0.033 * np.cos(2 * np.pi * day / 365.0))
        i = ((0.0000509 * alt + 0.868) * ext * np.maximum(s, 0)
             * np.exp(-(0.0000392 * alt + 0.0387) * mass
                      * (np.exp(-alt / 8000) + np.exp(-alt / 1250) * (turb - 1))))
        i = np.minimum(i, ext)
        if last is not None:
            total = total + 0.5 * (last + i) * step * 60
        last = i
    return total


def run_fields(case):
    from improver.generate_ancillaries.generate_derived_solar_fields import (
        GenerateClearskySolarRadiation, GenerateSolarTime)
    from vp import cubes as c

    yx = c.yx_coords(case["grid"])
    shape = (case["grid"]["ny"], case["grid"]["nx"])
    attrs = dict(c.ATTRS, extra="x")
    target = c.new_cube(np.zeros(shape, np.float32), "air_temperature", "K", yx,
                        c.time_coords({"frt": 0, "fp": 0}), attrs)
    lat, lon = grid_latlon(target)
    if np.abs(lat).max() > 90:
        o.reject("beyond the pole")
    before = o.snapshot(target)
    t = moment(case)
    stamp = int((t - datetime.datetime(1970, 1, 1)).total_seconds())
    day, hour = day_hour(t)
    want_a = dict(c.ATTRS, source="IMPROVER", title=case["title"])
    if case["title"] is None:
        del want_a["title"]
    res = GenerateSolarTime()(target, t, new_title=case["title"])
    st = solar_time(lon, day, hour) % 24
    got = res.data.astype(float)
    o.within(got, 0, 24, "solar time", 1e-4)
    got = got - 24 * np.round((got - st) / 24)
    o.close(got, st, "solar time", atol=1e-3)
    o.equal((res.name(), str(res.units), res.dtype), ("local_solar_time", "hours", np.dtype("f4")),
            "result")
    o.equal((int(res.coord("time").points[0]), str(res.coord("time").units),
             res.coord("time").dtype), (stamp, c.TIME_UNIT, np.dtype("i8")), "time")
    o.equal(dict(res.attributes), want_a, "attributes")
    for x in yx:
        o.same_coord(res.coord(x.name()), x)
    # radiation
    other = c.yx_coords(dict(case["grid"], y0=case["grid"]["y0"] + 1))
    alt = turb = None
    alts = np.array(case["alts"], np.float32).reshape(shape)
    turbs = np.array(case["turbs"], np.float32).reshape(shape)
    if case["alt"] or case["bad"] == "alt":
        if case["alt"] == "zero":
            alts = alts * 0
        alt = c.new_cube(alts, "surface_altitude", "m", other if case["bad"] == "alt" else yx)
    if case["turb"] or case["bad"] == "turb":
        turb = c.new_cube(turbs, "linke_turbidity", "1", other if case["bad"] == "turb" else yx)
    kw = {"surface_altitude": alt, "linke_turbidity": turb, "temporal_spacing": case["step"],
          "new_title": case["title"]}
    plugin = GenerateClearskySolarRadiation()
    if case["bad"] or case["hours"] * 60 % case["step"]:
        o.raises(ValueError, plugin, target, t, case["hours"], **kw)
        return True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = plugin(target, t, case["hours"], **kw)
    o.unchanged(before, target)
    a = alts.astype(float) if alt is not None else np.zeros(shape)
    want = radiation(lat, lon, t, case["hours"], case["step"], a,
                     turbs.astype(float) if turb is not None else np.full(shape, 3.0))
    o.close(res.data, want, "radiation", rtol=1e-3, atol=2000.0)
    o.equal((res.name(), str(res.units), res.dtype),
            ("integral_of_surface_downwelling_shortwave_flux_in_air_assuming_clear_sky_wrt_time",
             "W s m-2", np.dtype("f4")), "result")
    x = res.coord("time")
    o.equal((int(x.points[0]), x.bounds.tolist(), x.dtype),
            (stamp, [[stamp - 3600 * case["hours"], stamp]], np.dtype("i8")), "time")
    z = "altitude" if not a.any() else "height"
    o.equal([y.name() for y in res.coords() if y.name() in ("altitude", "height")], [z], "level")
    o.equal(float(res.coord(z).points[0]), 0.0, "level")
    o.equal(dict(res.attributes), want_a, "attributes")
    for x in yx:
        o.same_coord(res.coord(x.name()), x)
    o.label(case["grid"]["kind"], "dark" if not want.any() else None)
    return bool(want.any())


# ---------------------------------------------------------------- UV index and feels-like
def gen_feel():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(0))
        n = g.size(lay["inner"])
        return {"lay": lay, "t": draw(g.fixed(n, g.integers(-600, 450))),
                "w": draw(g.fixed(n, g.sampled([0, 0.5, 1, 1.34, 1.4, 5, 12, 30]))),
                "rh": draw(g.fixed(n, g.integers(0, 20))), "p": draw(g.fixed(n, g.integers(0, 10))),
                "uv": draw(g.fixed(n, g.integers(0, 40))), "neg": draw(g.sampled([None] * 6 + [-1, "nan"])),
                "tu": draw(g.sampled(["K", "K", "celsius", "Fahrenheit"])),
                "wu": draw(g.sampled(["m s-1", "m s-1", "knots"])), "ru": draw(g.sampled(["1", "%"])),
                "pu": draw(g.sampled(["Pa", "hPa"])), "uu": draw(g.sampled(["W m-2", "mW m-2"])),
                "mask": draw(g.sampled([None, None, None, "t", "w", "rh"])),
                "bits": draw(g.fixed(n, g.integers(0, 1))),
                "scale": draw(g.sampled([3.6, 3.6, 2.0])), "model": draw(g.booleans()),
                "badname": draw(g.integers(0, 9)) == 0, "differ": draw(g.integers(0, 3)) == 0}

    return case()


def goff(t):
    """Saturation vapour pressure in Pa."""
    t = np.asarray(t, float)
    T = 273.16
    hi = (10.79574 * (1 - T / t) - 5.028 * np.log10(t / T)
          + 1.50475e-4 * (1 - 10 ** (-8.2969 * (t / T - 1)))
          + 0.42873e-3 * (10 ** (4.76955 * (1 - T / t)) - 1) + 0.78614)
    lo = -9.09685 * (T / t - 1) - 3.56654 * np.log10(T / t) + 0.87682 * (1 - t / T) + 0.78614
    return 100 * 10 ** np.where(t > T, hi, lo)


def run_feel(case):
    from improver.feels_like_temperature import calculate_feels_like_temperature
    from improver.uv_index import calculate_uv_index
    from vp import cubes as c

    lay = case["lay"]
    shape = lay["inner"]
    MODEL = "mosg__model_configuration"
    attrs = dict(c.ATTRS)
    attrs[MODEL] = "uk_ens"
    bits = np.array(case["bits"], bool).reshape(shape)

    def make(vals, name, units, mask=False, at=None):
        data = np.array(vals, np.float32).reshape(shape)
        if mask:
            data = np.ma.MaskedArray(data, mask=bits.copy())
        return c.layout_cube(lay, data, name, units, attributes=at or attrs)

    # UV index
    uv = np.array(case["uv"], float) / 100
    if case["neg"] is not None:
        uv[0] = np.nan if case["neg"] == "nan" else -0.01
    name = "surface_downwelling_ultraviolet_flux_in_air"
    cube = make(uv * (1000 if case["uu"] == "mW m-2" else 1), "flux" if case["badname"] else name,
                case["uu"])
    kw = {"model_id_attr": MODEL} if case["model"] else {}
    if case["neg"] is not None or case["badname"]:
        o.raises(ValueError, calculate_uv_index, cube, **kw)
    else:
        res = calculate_uv_index(cube, case["scale"], **kw)
        got = c.aligned(res, lay)
        o.close(got, uv.reshape(shape) * case["scale"], "UV index", rtol=1e-4)
        o.equal((res.name(), str(res.units), res.dtype), ("ultraviolet_index", "1", np.dtype("f4")),
                "result")
        o.equal(dict(res.attributes), attrs if case["model"] else c.ATTRS, "attributes")
    # feels like
    t = np.array(case["t"], float) / 10 + 0.03          # never exactly at 10 or 20 degrees
    w, rh = np.array(case["w"], float), np.array(case["rh"], float) / 20
    p = 95000.0 + 1000 * np.array(case["p"], float)
    tv = {"K": t + 273.15, "celsius": t, "Fahrenheit": t * 1.8 + 32}[case["tu"]]
    other = dict(attrs, title="Other") if case["differ"] else attrs
    cubes = [make(tv, "air_temperature", case["tu"], case["mask"] == "t"),
             make(w / (1852 / 3600.0 if case["wu"] == "knots" else 1), "wind_speed", case["wu"],
                  case["mask"] == "w"),
             make(rh * (100 if case["ru"] == "%" else 1), "relative_humidity", case["ru"],
                  case["mask"] == "rh", other),
             make(p / (100 if case["pu"] == "hPa" else 1), "surface_air_pressure", case["pu"])]
    before = [o.snapshot(x) for x in cubes]
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = calculate_feels_like_temperature(*cubes, **kw)
    for b, x in zip(before, cubes):
        o.unchanged(b, x)
    k = t + 273.15
    es = goff(np.clip(k, 183.15, 338.15)) * (1 + 1e-8 * p * (4.5 + 6e-4 * t * t))
    app = -2.7 + 1.04 * t + 2 * 0.001 * es * rh - 0.65 * w
    v = np.maximum(w * 3.6, 4.824) ** 0.16
    chill = 13.12 + 0.6215 * t - 11.37 * v + 0.3965 * t * v
    with np.errstate(invalid="ignore"):
        want = np.where(t < 10, chill, np.where(t > 20, app,
                                                (t - 10) / 10 * app + (20 - t) / 10 * chill))
    want = {"K": want + 273.15, "celsius": want, "Fahrenheit": want * 1.8 + 32}[case["tu"]]
    want = want.reshape(shape)
    gone = bits if case["mask"] else np.zeros(shape, bool)
    got = c.aligned(res, lay)
    gm = np.ma.getmaskarray(got) | np.isnan(np.ma.getdata(got).astype(float))
    o.equal(gm.tolist(), gone.tolist(), "missing points")
    ok = ~gone
    if ok.any():
        o.close(np.ma.getdata(got)[ok], want[ok], "feels-like temperature", rtol=1e-5, atol=2e-2)
    o.equal((res.name(), str(res.units), res.dtype),
            ("feels_like_temperature", str(cubes[0].units), np.dtype("f4")), "result")
    want_a = dict(attrs) if case["model"] else dict(c.ATTRS)
    if case["differ"]:
        want_a["title"] = "unknown"
    o.equal(dict(res.attributes), want_a, "attributes")
    o.label(case["mask"])
    return len(set(case["t"])) > 1


# ---------------------------------------------------------------- day and night
def gen_night():
    from vp import gens as g

    @g.composite
    def case(draw):
        lay = draw(g.layout(draw(g.sampled([0, 0, 2])), max_n=4))
        n = lay["grid"]["nx"]
        day = draw(g.one_of(g.integers(0, 364), g.integers(79, 85), g.integers(262, 268)))
        return {"lay": lay, "day": day, "year": draw(g.sampled([2017, 2020, 2021])),
                "sec": draw(g.one_of(g.integers(0, 1439).map(lambda m: 60 * m),
                                     g.integers(0, 86399))),
                "dawn": draw(g.one_of(g.just(None), g.integers(-12, 12))),
                "fp": draw(g.integers(0, 36)) * 3600, "main": draw(g.booleans()),
                "span": draw(g.sampled([None, None, 1, 3, 11, 12])), "bits": draw(g.booleans()),
                "lats": draw(g.fixed(n, g.integers(-900, 900))),
                "lons": draw(g.fixed(n, g.integers(-1800, 1800)))}

    return case()


def run_night(case):
    from improver.utilities.solar import DayNightMask
    from vp import cubes as c

    lay = dict(case["lay"])
    stamp = int((moment(case) - datetime.datetime(1970, 1, 1)).total_seconds())
    span = None if case["span"] is None else 3600 * case["span"]
    if case["dawn"] is not None:
        # within minutes of sunrise or sunset at the first point
        if lay["spot"]:
            la, lo = case["lats"][0] / 10, case["lons"][0] / 10
        else:
            first = c.new_cube(np.zeros((1, 1), np.float32), "x", "1",
                               [x[:1] for x in c.yx_coords(lay["grid"])])
            la, lo = (float(z[0, 0]) for z in grid_latlon(first))
        dec = np.radians(-23.5 * np.cos(np.radians(0.9856 * case["day"] + 9.3)))
        h = np.degrees(np.arccos(np.clip(-np.tan(dec) * np.tan(np.radians(la)), -1, 1))) / 15
        hour = 12 - lo / 15 - eqt(case["day"]) + (h if case["main"] else -h)
        stamp += int(hour % 24 * 3600) - case["sec"] + 60 * case["dawn"] + (span or 0) // 2
    lay["times"] = {"frt": stamp - case["fp"], "fp": case["fp"], "period": span}
    shape = tuple(lay["inner"])
    main = None
    if "main" in lay["dims"]:
        main = c.percentile_coord([20, 60])
        shape = (2,) + shape
    data = np.zeros(shape, np.float32)
    if case["bits"]:
        data = np.ma.masked_all(shape, np.float32)
    kw = {}
    if lay["spot"]:
        kw = {"lats": np.array(case["lats"]) / 10, "lons": np.array(case["lons"]) / 10}
    cube = c.layout_cube(lay, data, "air_temperature", "K", main, dict(c.ATTRS, extra="x"), **kw)
    if lay["spot"]:
        lat, lon = (cube.coord(z).points.astype(float) for z in ("latitude", "longitude"))
    else:
        lat, lon = grid_latlon(cube)
    if np.abs(lat).max() > 90:
        o.reject("beyond the pole")
    before = o.snapshot(cube)
    res = DayNightMask()(cube)
    o.unchanged(before, cube)
    nt = lay["k"] if lay["lead"] == "time" else 0
    wants = []
    for k in range(max(nt, 1)):
        at = stamp + 3600 * k - (span / 2 if span else 0)
        wants.append(sine(lat, lon, *day_hour(datetime.datetime(1970, 1, 1)
                                              + datetime.timedelta(seconds=at))))
    want = np.array(wants if nt else wants[0])
    here = dict(lay)
    if not nt:
        here.update(k=0, lead="none")
    got = c.aligned(res, here)
    o.check(not np.ma.is_masked(got), "mask is masked")
    o.equal(np.shape(got), want.shape, "shape of the mask")
    sure = np.abs(want) > 5e-4
    o.equal(np.asarray(got)[sure].tolist(), (want > 0).astype(int)[sure].tolist(),
            "daylight (sines %s)" % want[sure].tolist()[:9])
    o.check(bool(np.isin(got, (0, 1)).all()), "values are 0 or 1")
    o.equal((res.name(), str(res.units), res.dtype), ("day_night_mask", "1", np.dtype("i4")),
            "result")
    o.equal(dict(res.attributes), dict(c.ATTRS, title="Day-Night mask"), "attributes")
    for name in ("realization", "percentile"):
        if cube.coord_dims(name) if cube.coords(name) else False:
            o.check(not res.coords(name), "%s kept" % name)
    o.same_coord(res.coord("time"), cube.coord("time"))
    o.label("spot" if lay["spot"] else lay["grid"]["kind"], "bounds" if span else None,
            "both" if len(set((want > 0).ravel().tolist())) > 1 else None)
    return bool((want > 0).any())


SUBS = {"funcs": Sub(gen_funcs, run_funcs, 2), "fields": Sub(gen_fields, run_fields, 2),
        "feel": Sub(gen_feel, run_feel, 2), "night": Sub(gen_night, run_night, 2)}
