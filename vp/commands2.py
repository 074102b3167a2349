"""More commands of the command line (see commands.py), with inputs built for each of them."""
import numpy as np

from vp.commands import F, T, MODEL, command, flag, js, number, opt, words


def whole(default, *values, required=False):
    return number(default, *values, conv=int, required=required)


def B(build, lo=0, hi=20, **kw):
    """An input made by build(case, array, times, values, bits)."""
    return dict(name=kw.pop("name", "built"), units="1", lo=lo, hi=hi, leads=(), build=build, **kw)


MODELATTR = {"model-id-attr": MODEL}
HT = ("height", "m", [5.0, 100, 500, 1500])
PR = ("pressure", "Pa", [95000.0, 80000, 60000, 40000])


# ---------------------------------------------------------------- fields
def _ccl(case, array, t, values, bits):
    from iris.cube import CubeList
    from vp import cubes as c

    yx = c.yx_coords(case["grid"])
    s = [len(x.points) for x in yx]
    a = array(s)
    at = dict(c.ATTRS, mosg__model_configuration="uk_ens")
    return CubeList([
        c.new_cube(a + np.float32(270), "air_temperature_at_condensation_level", "K", yx, c.time_coords(t), at),
        c.new_cube(a[::-1] * 500 + np.float32(80000), "air_pressure_at_condensation_level", "Pa",
                   [x.copy() for x in yx], c.time_coords(t), at)])


@command("cloud-top-temperature", [B(_ccl), F("air_temperature", "K", 210, 300, leads=("l",), levels=PR, falling=True, model="uk_ens")],
         MODELATTR)
def cloud_top_temperature(cubes, **kw):
    from improver.psychrometric_calculations.cloud_top_temperature import CloudTopTemperature

    return CloudTopTemperature(**kw)(*cubes[0], cubes[1])


@command("hail-size", [F("air_temperature", "K", 230, 300, leads=("l",), levels=PR, falling=True, model="uk_ens"),
                       F("air_temperature_at_condensation_level", "K", 270, 295, model="uk_ens"),
                       F("air_pressure_at_condensation_level", "Pa", 80000, 95000, model="uk_ens"),
                       F("wet_bulb_freezing_level_altitude", "m", 0, 5000, model="uk_ens"),
                       F("surface_altitude", "m", 0, 500, static=True)], MODELATTR)
def hail_size(cubes, **kw):
    from improver.psychrometric_calculations.hail_size import HailSize

    return HailSize(**kw)(*cubes)


@command("hail-fraction", [F("maximum_vertical_updraught", "m s-1", 0, 60, model="uk_ens"),
                           F("diameter_of_hail_stones", "m", 0, 0.01, model="uk_ens"),
                           F("air_temperature_at_condensation_level", "K", 262, 290, model="uk_ens"),
                           F("air_temperature_at_convective_cloud_top", "K", 230, 270, model="uk_ens"),
                           F("altitude_of_rain_from_hail_falling_level", "m", 0, 800, model="uk_ens"),
                           F("surface_altitude", "m", 0, 1200, model="uk_ens")], MODELATTR)
def hail_fraction(cubes, **kw):
    from improver.precipitation_type.hail_fraction import HailFraction

    return HailFraction(**kw)(*cubes)


RATES = [2.7e-8, 2.7e-7, 1e-6]


def _rate(name):
    return F("probability_of_%s_above_threshold" % name, "1", 0, 1, leads=("T",), thr=(name, "m s-1", RATES, "above"),
             model="uk_ens", falling=True)


@command("freezing-rain", [_rate("rainfall_rate"), _rate("lwe_sleetfall_rate"),
                           F("probability_of_air_temperature_below_threshold", "1", 0, 1, leads=("T",), model="uk_ens",
                             thr=("air_temperature", "K", [273.15, 275.15], "below"), rising=True)], MODELATTR)
def freezing_rain(cubes, **kw):
    from improver.precipitation_type.freezing_rain import FreezingRain

    return FreezingRain(**kw)(*cubes)


@command("lightning-multivariate-probability-usaf2024",
         [F("atmosphere_specific_convective_available_potential_energy", "J kg-1", -50, 3000),
          F("temperature_difference_between_ambient_air_and_air_lifted_adiabatically", "K", -6, 6),
          F("precipitable_water", "kg m-2", 0, 50), F("atmosphere_specific_convective_inhibition", "J kg-1", -400, 0),
          F("precipitation_amount", "kg m-2", 0, 30, period=3, fp=3)], MODELATTR)
def lightning_usaf(cubes, **kw):
    from improver.lightning import LightningMultivariateProbability_USAF2024
    from iris.cube import CubeList

    return LightningMultivariateProbability_USAF2024()(CubeList(cubes), **kw)


@command("lightning-from-cape-and-precip",
         [F("atmosphere_convective_available_potential_energy", "J kg-1", 0, 3000, leads=("r",), latlon=True),
          F("precipitation_rate_max", "m s-1", 0, 1e-5, leads=("r",), period=1, fp=1, latlon=True)], MODELATTR)
def lightning_cape(cubes, **kw):
    from improver.lightning import LightningFromCapePrecip

    return LightningFromCapePrecip(**kw)(*cubes)


@command("shower-condition-probability", [F("cloud_area_fraction", "1", 0, 1, leads=("r",), model="uk_ens"),
                                          F("convective_ratio", "1", 0, 1, leads=("r",), model="uk_ens", mask=True)],
         {"cloud-threshold": number(None, 0.8125, 0.5, required=True),
          "convection-threshold": number(None, 0.8, 0.3, required=True), "model-id-attr": MODEL})
def shower_condition(cubes, **kw):
    from improver.precipitation_type.shower_condition_probability import ShowerConditionProbability
    from iris.cube import CubeList

    return ShowerConditionProbability(**kw)(CubeList(cubes))


@command("remake-as-shower-condition", [F("probability_of_shower_diagnostic_above_threshold", "1", 0, 1, leads=("T",),
                                          thr=("shower_diagnostic", "m", [0.5], "above"))])
def remake_shower(cubes):
    from improver.precipitation_type.utilities import make_shower_condition_cube

    return make_shower_condition_cube(cubes[0])


@command("snow-splitter", [F("probability_of_snow_at_surface", "1", 0, 0.5), F("probability_of_rain_at_surface", "1", 0, 0.5),
                           F("lwe_precipitation_rate", "m s-1", 0, 1e-5)], {"output-is-rain": {
    "default": None, "flag": False, "required": True, "alts": [("True", True), ("False", False)]}})
def snow_splitter(cubes, output_is_rain):
    from improver.precipitation_type.snow_splitter import SnowSplitter

    return SnowSplitter(output_is_rain=output_is_rain)(*cubes)


LOW = "cloud_base_height_assuming_only_consider_cloud_area_fraction_greater_than_4p5_oktas"


def _base(case, array, t, values, bits):
    from iris.coords import AuxCoord
    from vp import cubes as c

    yx = c.yx_coords(case["grid"])
    cube = c.new_cube(array([len(x.points) for x in yx]), "probability_of_%s_below_threshold" % LOW, "1", yx, c.time_coords(t))
    cube.add_aux_coord(AuxCoord(np.array([30.0], np.float32), long_name=LOW, var_name="threshold", units="m",
                                attributes={"spp__relative_to_threshold": "less_than"}))
    return cube


@command("visibility-combine-cloud-base",
         [F("probability_of_visibility_in_air_below_threshold", "1", 0, 1, leads=("T",), rising=True,
            thr=("visibility_in_air", "m", [50, 1000, 5000], "below")), B(_base, 0, 1)],
         {"initial-scaling-value": number(None, 0.6, 0.25, required=True),
          "first-unscaled-threshold": number(None, 5000, 3000, required=True)})
def visibility(cubes, initial_scaling_value, first_unscaled_threshold):
    from improver.visibility.visibility_combine_cloud_base import VisibilityCombineCloudBase

    return VisibilityCombineCloudBase(initial_scaling_value, first_unscaled_threshold)(cubes)


@command("wet-bulb-freezing-level", [F("wet_bulb_temperature", "K", 250, 290, leads=("l",), levels=HT, falling=True)])
def wet_bulb_freezing(cubes):
    from improver.psychrometric_calculations.wet_bulb_temperature import MetaWetBulbFreezingLevel

    return MetaWetBulbFreezingLevel()(cubes[0])


@command("phase-change-level", [F("wet_bulb_temperature", "K", 265, 280, leads=("l",), levels=HT, falling=True, model="uk_ens"),
                                F("wet_bulb_temperature_integral", "K m", 0, 400, leads=("l",), model="uk_ens",
                                  levels=("height", "m", [5.0, 100, 500]), falling=True),
                                F("surface_altitude", "m", 0, 200, static=True),
                                F("land_binary_mask", "1", 0, 1, whole=True, static=True)], {
    "phase-change": opt(None, "snow-sleet", "sleet-rain", "hail-rain", required=True),
    "grid-point-radius": whole(2, 1, 3), "horizontal-interpolation": {"default": True, "flag": False, "required": False,
                                                                      "alts": [("False", False), ("True", True)]},
    "model-id-attr": MODEL})
def phase_change_level(cubes, **kw):
    from improver.psychrometric_calculations.psychrometric_calculations import PhaseChangeLevel

    return PhaseChangeLevel(**kw)(*cubes)


def _falling(case, array, t, values, bits):
    from vp import cubes as c

    yx = c.yx_coords(case["grid"])
    pc = c.percentile_coord([20, 50, 80])
    a = np.sort(array([3] + [len(x.points) for x in yx]), axis=0)
    return c.new_cube(a, ["altitude_of_snow_falling_level", "altitude_of_rain_falling_level",
                          "altitude_of_rain_from_hail_falling_level"][values[0] % 3], "m", [pc] + yx, c.time_coords(t))


@command("phase-probability", [B(_falling, 0, 1000), F("surface_altitude", "m", 0, 1200, static=True)])
def phase_probability(cubes):
    from improver.psychrometric_calculations.precip_phase_probability import PrecipPhaseProbability

    return PrecipPhaseProbability()(*cubes)


HW = ("height", "m", [5.0, 20, 100, 1000, 10000])


@command("wind-downscaling", [F("wind_speed", "m s-1", 0.5, 30, leads=("r", "l"), levels=HW),
                              F("standard_deviation_of_height", "m", 1, 100, static=True),
                              F("surface_altitude", "m", 0, 800, static=True),
                              F("surface_altitude", "m", 0, 700, static=True),
                              F("silhouette_roughness", "1", 0.01, 0.3, static=True),
                              F("vegetative_roughness_length", "m", 0.01, 1, static=True, optional=True)], {
    "model-resolution": number(None, 1500, 4000, required=True), "output-height-level": number(None, 20, 100, 33),
    "output-height-level-units": opt("m", "m", "km")})
def wind_downscaling(cubes, model_resolution, output_height_level, output_height_level_units):
    """Every member is corrected; one level is taken out if asked for."""
    import iris
    from improver.wind_calculations.wind_downscaling import RoughnessCorrection

    wind, sigma, fine, coarse, aos = cubes[:5]
    plugin = RoughnessCorrection(aos, sigma, fine, coarse, model_resolution, z0_cube=cubes[5] if len(cubes) > 5 else None,
                                 height_levels_cube=None)
    res = iris.cube.CubeList([plugin(x) for x in wind.slices_over("realization")]).merge_cube()
    if output_height_level is None:
        return res
    level = output_height_level * {"m": 1, "km": 1000}[output_height_level_units]
    if not np.isclose(HW[2], level).any():
        raise ValueError("no such level")
    i = int(np.argmin(np.abs(np.array(HW[2]) - level)))
    at = res.coord_dims("height")[0]
    return res[tuple(i if d == at else slice(None) for d in range(res.ndim))]


def _moment(text):
    import datetime

    return datetime.datetime.strptime(text, "%Y%m%dT%H%MZ")


@command("generate-clearsky-solar-radiation", [F("target", "1", 0, 1, static=True),
                                               F("surface_altitude", "m", 0, 500, static=True, optional=True),
                                               F("linke_turbidity", "1", 2, 5, static=True, optional=True)], {
    "time": {"default": None, "flag": False, "required": True,
             "alts": [("20200621T1200Z", "20200621T1200Z"), ("20201001T1500Z", "20201001T1500Z")]},
    "accumulation-period": whole(None, 1, 3, required=True), "temporal-spacing": whole(30, 15, 60, 45),
    "new-title": opt(None, "Clear title")})
def clearsky(cubes, time, accumulation_period, temporal_spacing, new_title):
    from datetime import timezone
    from improver.generate_ancillaries.generate_derived_solar_fields import GenerateClearskySolarRadiation

    rest = cubes[1:] + [None, None]
    return GenerateClearskySolarRadiation()(
        cubes[0], _moment(time).replace(tzinfo=timezone.utc), accumulation_period, surface_altitude=rest[0],
        linke_turbidity=rest[1], temporal_spacing=temporal_spacing, new_title=new_title)


HE = ("height", "m", [500.0, 1000, 1500])


@command("orographic-enhancement", [F("air_temperature", "K", 270, 290, leads=("l",), levels=HE),
                                    F("relative_humidity", "1", 0.5, 1, leads=("l",), levels=HE),
                                    F("air_pressure", "Pa", 85000, 95000, leads=("l",), levels=HE),
                                    F("wind_speed", "m s-1", 0, 40, leads=("l",), levels=HE),
                                    F("wind_from_direction", "degrees", 0, 359, leads=("l",), levels=HE),
                                    F("surface_altitude", "m", 0, 900, static=True)], {
    "boundary-height": number(1000.0, 500, 1500.0, 1.5, 700), "boundary-height-units": opt("m", "m", "km")})
def orographic_enhancement(cubes, boundary_height, boundary_height_units):
    """The enhancement from the fields at the boundary height (as requested, within 0.1 units)."""
    from improver.orographic_enhancement import OrographicEnhancement
    from improver.wind_calculations.wind_components import ResolveWindComponents

    scale = {"m": 1.0, "km": 0.001}[boundary_height_units]
    at = [i for i, h in enumerate(HE[2]) if abs(h * scale - boundary_height) < 0.11]
    if not at:
        raise ValueError("no such height")
    if len(at) > 1:
        from vp.oracle import reject
        reject("several heights")
    t, q, p, s, d = [x[at[0]] for x in cubes[:5]]
    u, v = ResolveWindComponents()(s, d)
    return OrographicEnhancement()(t, q, p, u, v, cubes[5])


# ---------------------------------------------------------------- categories
TREE = {"wet": {"if_true": "rain", "if_false": "dry", "if_diagnostic_missing": "if_false", "probability_thresholds": [0.5],
                "threshold_condition": ">=", "condition_combination": "",
                "diagnostic_fields": ["probability_of_rainfall_rate_above_threshold"],
                "diagnostic_thresholds": [[2.7e-7, "m s-1"]], "diagnostic_conditions": ["above"]},
        "meta": {"name": "weather_code"},
        "rain": {"leaf": 2, "group": "wet"}, "dry": {"leaf": 0}, "drizzle": {"leaf": 1, "if_night": "rain", "is_unreachable": True}}
TREE["meta"] = {"name": "weather_code"}


def _tree(name):
    t = {k: dict(v) for k, v in TREE.items()}
    t["meta"] = {"name": name}
    t.pop("drizzle")
    return t


@command("categorical", [_rate("rainfall_rate")],
         {"decision-tree": js(None, _tree("weather_code"), _tree("ground_state"), required=True), "model-id-attr": MODEL,
          "record-run-attr": opt(None, "mosg__model_run"), "target-period": whole(None, 3600, 10800),
          "check-tree": flag(), "title": opt(None, "Symbols")})
def categorical(cubes, decision_tree, check_tree, target_period, **kw):
    from improver.categorical.decision_tree import ApplyDecisionTree

    if check_tree:
        from improver.categorical.utilities import check_tree as check
        return Text(check(decision_tree, target_period=target_period))
    return ApplyDecisionTree(decision_tree, target_period=target_period, **kw)(*cubes)


class Text(str):
    """A command that returns text."""


def _codes(hour):
    def build(case, array, t, values, bits):
        from iris.coords import AuxCoord
        from vp import cubes as c

        yx = c.yx_coords(case["grid"])
        a = np.array([[0, 2][values[(7 * i + hour) % len(values)] % 2] for i in range(
            len(yx[0].points) * len(yx[1].points))], np.int32).reshape([len(x.points) for x in yx])
        t = dict(t, fp=t["fp"] + 3600 * hour, period=3600)
        at = dict(c.ATTRS, weather_code=np.array([0, 2], np.int32), weather_code_meaning="dry rain",
                  mosg__model_configuration="uk_ens", mosg__model_run="uk_ens:20171110T0000Z:1.000")
        _ = AuxCoord
        return c.new_cube(a, "weather_code", "1", yx, c.time_coords(t), at)
    return build


@command("categorical-modes", [B(_codes(0)), B(_codes(1)), B(_codes(2)), B(_codes(3), optional=True)],
         {"decision-tree": js(None, _tree("weather_code"), required=True), "model-id-attr": MODEL,
          "record-run-attr": opt(None, "mosg__model_run")})
def categorical_modes(cubes, decision_tree, **kw):
    from improver.categorical.modal_code import ModalCategory
    from iris.cube import CubeList

    return ModalCategory(decision_tree, **kw)(CubeList(cubes))


# ---------------------------------------------------------------- sites
def _neighbours(case, array, t, values, bits):
    from improver.metadata.utilities import create_coordinate_hash
    from improver.spotdata.build_spotdata_cube import build_spotdata_cube
    from vp import cubes as c

    yx = c.yx_coords(case["grid"])
    ny, nx = [len(x.points) for x in yx]
    n, m = 3, ["nearest", "nearest_land", "nearest_land_minimum_dz", "nearest_minimum_dz"]
    data = np.zeros((4, 3, n), np.float32)
    for k in range(4):
        for i in range(n):
            data[k, :, i] = (values[i + k] % nx, values[i + 2 * k + 1] % ny, 10 * (values[i + k + 5] - 10))
    cube = build_spotdata_cube(
        data, "grid_neighbours", 1, np.arange(n, dtype=np.float32) * 20, np.arange(n, dtype=np.float32) + 50,
        np.arange(n, dtype=np.float32) - 3, ["%05d" % (3000 + i) for i in range(n)], neighbour_methods=m,
        grid_attributes=["x_index", "y_index", "vertical_displacement"])
    cube.attributes["model_grid_hash"] = create_coordinate_hash(c.new_cube(np.zeros((ny, nx), np.float32), "x", "1", yx))
    return cube


METHOD = {"land-constraint": flag(), "similar-altitude": flag()}


SPOT = {
    "apply-lapse-rate-correction": flag(), "fixed-lapse-rate": number(None, -0.006, 0.0), **METHOD,
    "extract-percentiles": words(None, "50", "20,80", "10,50,90"), "ignore-ecc-bounds-exceedance": flag(),
    "skip-ecc-bounds": flag(), "new-title": opt(None, "Spot title"), "suppress-warnings": flag(),
    "realization-collapse": flag(), "subset-coord": opt(None, "wmo_id")}


@command("spot-extract", [F("air_temperature", "K", 270, 300, leads=("r",), height=1.5), B(_neighbours)], SPOT)
def spot_extract(cubes, **kw):
    from improver.spotdata.spot_manipulation import SpotManipulation

    return SpotManipulation(**kw)(cubes)


@command("spot-extract#lapse", [F("air_temperature", "K", 270, 300, leads=("r",), height=1.5),
                                F("air_temperature_lapse_rate", "K m-1", -0.03, 0.01, leads=("r",), height=1.5), B(_neighbours)], SPOT)
def spot_extract2(cubes, **kw):
    return spot_extract(cubes, **kw)


def _spots(name, units, lead):
    def build(case, array, t, values, bits):
        from vp import cubes as c

        dims = {"p": [c.percentile_coord([10, 50, 90])], "": []}[lead]
        shape = [len(x.points) for x in dims] + [3]
        return c.spot_cube(np.sort(array(shape), axis=0) if dims else array(shape), name, units, 3, lead=dims,
                           scalars=c.time_coords(t), alts=[0, 20, 40], lats=[50, 51, 52], lons=[-3, -2, -1])
    return build


@command("apply-height-adjustment", [B(_spots("cloud_base_height", "m", "p"), 0, 3000), B(_neighbours)], METHOD)
def height_adjustment(cubes, land_constraint, similar_altitude):
    from improver.spotdata.height_adjustment import SpotHeightAdjustment

    method = "nearest" + "_land" * land_constraint + "_minimum_dz" * similar_altitude
    return SpotHeightAdjustment(method)(*cubes)


SITES = [{"altitude": 10, "latitude": 54.9, "longitude": -2.5, "wmo_id": 3001},
         {"altitude": 150, "latitude": 54.91, "longitude": -2.52, "wmo_id": 3002},
         {"altitude": 50, "latitude": 60.0, "longitude": -2.5, "wmo_id": 3900},
         {"altitude": 20, "latitude": 54.87, "longitude": -2.55, "wmo_id": None}]


def _near(case, array, t, values, bits):
    """Ground around the sites."""
    from vp import cubes as c

    grid = dict(case["grid"], y0=-6000, x0=-5000, dy=2000, dx=2000, bounds=True)
    yx = c.yx_coords(grid)
    return c.new_cube(array([len(x.points) for x in yx]), "surface_altitude", "m", yx)


def _nearmask(case, array, t, values, bits):
    from vp import cubes as c

    cube = _near(case, array, t, values, bits)
    cube.data = (cube.data > 6).astype(np.int8)
    cube.rename("land_binary_mask")
    cube.units = "1"
    _ = c
    return cube


SITEKEYS = [dict(x, station_id=100 + i, ypos=x["latitude"], xpos=x["longitude"]) for i, x in enumerate(SITES)]


@command("neighbour-finding", [B(_near, 0, 300), B(_nearmask, 0, 20)], {
    "site-list": {"default": None, "flag": False, "required": "positional", "alts": [(("json", SITEKEYS), SITEKEYS)]},
    "all-methods": flag(), **METHOD, "search-radius": number(None, 5000, 20000), "node-limit": whole(None, 9, 36),
    "site-coordinate-system": opt(None, "PlateCarree", "Spherical"), "site-coordinate-options": opt(None, '{"central_longitude": 0.0}', '{"globe": {"semimajor_axis": 6371229}}'),
    "site-x-coordinate": opt(None, "xpos"), "site-y-coordinate": opt(None, "ypos"),
    "unique-site-id-key": opt(None, "station_id")})
def neighbour_finding(cubes, site_list, all_methods, site_coordinate_system, site_coordinate_options, land_constraint,
                      similar_altitude, **kw):
    import json

    import cartopy.crs as ccrs
    import iris
    from improver.spotdata.neighbour_finding import NeighbourSelection
    from improver.utilities.cube_manipulation import MergeCubes, enforce_coordinate_ordering

    if all_methods and (land_constraint or similar_altitude):
        raise ValueError("all methods, or these")
    kw = {k: v for k, v in kw.items() if v is not None}
    if site_coordinate_system is not None:
        if site_coordinate_system != "PlateCarree":
            raise ValueError("unknown projection")
        options = json.loads(site_coordinate_options or "{}")
        globe = ccrs.Globe(**options.pop("globe", {}))
        kw["site_coordinate_system"] = ccrs.PlateCarree(globe=globe, **options)
    elif site_coordinate_options is not None:
        kw["site_coordinate_options"] = site_coordinate_options
        kw.pop("site_coordinate_options")

    def one(land, dz):
        return NeighbourSelection(land_constraint=land, minimum_dz=dz, **kw)(site_list, *cubes)

    if all_methods:
        out = iris.cube.CubeList()
        for i, (land, dz) in enumerate([(False, False), (True, False), (False, True), (True, True)]):
            x = one(land, dz)
            x.coord("neighbour_selection_method").points = np.int32(i)
            out.append(iris.util.squeeze(x))
        res = MergeCubes()(out)
    else:
        res = one(land_constraint, similar_altitude)
    enforce_coordinate_ordering(res, ["neighbour_selection_method", "grid_attributes", "spot_index"])
    return res


# ---------------------------------------------------------------- calibration
def _history(truth, kind, cut=0):
    """Forecasts or truths over four (or fewer) days; kind: p (thresholds), r (members), or a single field."""
    def build(case, array, t, values, bits):
        from iris.coords import AuxCoord, DimCoord
        from vp import cubes as c

        n = 4 - cut
        yx = c.yx_coords(case["grid"])
        times = np.array([t["frt"] + t["fp"] + 86400 * (i + cut * truth) for i in range(n)], np.int64)
        dims = [DimCoord(times, standard_name="time", units=c.TIME_UNIT)]
        name, units = "air_temperature", "K"
        if kind == "p":
            dims = [c.threshold_coord([275.0, 285.0], "air_temperature", "K", "above")] + dims
            name, units = "probability_of_air_temperature_above_threshold", "1"
        elif kind == "r" and not truth:
            dims = [c.realization_coord(np.arange(3))] + dims
        shape = [len(x.points) for x in dims + yx]
        a = array(shape)
        if kind == "p":
            a = (a - 270) / np.float32(30)
            a = (a > 0.5).astype(np.float32) if truth else -np.sort(-a, axis=0)
        at = dict(c.ATTRS, mosg__model_configuration="uk_det" if truth else "uk_ens")
        cube = c.new_cube(a.astype(np.float32), name, units, dims + yx, [], at)
        frt = times - (0 if truth else t["fp"])
        cube.add_aux_coord(AuxCoord(frt, standard_name="forecast_reference_time", units=c.TIME_UNIT), cube.coord_dims("time"))
        cube.add_aux_coord(DimCoord(np.int32(0 if truth else t["fp"]), standard_name="forecast_period", units="seconds"))
        return cube
    return build


TRUTH = {"truth-attribute": opt(None, "mosg__model_configuration=uk_det", "mosg__model_configuration=uk_ens",
                                "mosg__model_configuration=other", required=True)}


def sorted_by(cubes, attribute):
    """(forecast, truth) among two cubes, whatever their order."""
    key, value = attribute.split("=")
    truth = [x for x in cubes if x.attributes.get(key) == value]
    rest = [x for x in cubes if x.attributes.get(key) != value]
    if not truth or not rest:
        raise IOError("missing")
    return rest[0], truth[0]


@command("construct-reliability-tables", [B(_history(0, "p"), 270, 300), B(_history(1, "p"), 270, 300)], {
    **TRUTH, "n-probability-bins": whole(5, 2, 4), "single-value-lower-limit": flag(), "single-value-upper-limit": flag(),
    "aggregate-coordinates": words(None, "projection_x_coordinate", "projection_x_coordinate,projection_y_coordinate")})
def construct_reliability(cubes, truth_attribute, aggregate_coordinates, **kw):
    from improver.calibration.reliability_calibration import ConstructReliabilityCalibrationTables

    forecast, truth = sorted_by(cubes, truth_attribute)
    return ConstructReliabilityCalibrationTables(**kw)(forecast, truth, aggregate_coordinates)


@command("construct-reliability-tables#order", [B(_history(1, "p"), 270, 300), B(_history(0, "p", 1), 270, 300)], {
    **TRUTH, "n-probability-bins": whole(5, 2, 4)})
def construct_reliability2(cubes, truth_attribute, **kw):
    return construct_reliability(cubes, truth_attribute, None, **kw)


def _table(day):
    def build(case, array, t, values, bits):
        from improver.calibration.reliability_calibration import ConstructReliabilityCalibrationTables as Tables

        t = dict(t, frt=t["frt"] + day * 86400 * 10)
        return Tables()(_history(0, "p")(case, array, t, values, bits), _history(1, "p")(case, array, t, values[::-1], bits))
    return build


@command("aggregate-reliability-tables", [B(_table(0), 270, 300), B(_table(1), 270, 300, optional=True)], {
    "coordinates": words(None, "projection_x_coordinate", "projection_y_coordinate,projection_x_coordinate")})
def aggregate_reliability(cubes, coordinates):
    from improver.calibration.reliability_calibration import AggregateReliabilityCalibrationTables

    return AggregateReliabilityCalibrationTables()(cubes, coordinates=coordinates)


def _summed(case, array, t, values, bits):
    from improver.calibration.reliability_calibration import AggregateReliabilityCalibrationTables

    return AggregateReliabilityCalibrationTables()(
        [_table(0)(case, array, t, values, bits)], ["projection_x_coordinate", "projection_y_coordinate"])


@command("manipulate-reliability-table", [B(_summed, 270, 300)], {
    "minimum-forecast-count": whole(200, 1, 20, 0), "point-by-point": flag()})
def manipulate_reliability(cubes, **kw):
    from improver.calibration.reliability_calibration import ManipulateReliabilityTable

    return ManipulateReliabilityTable(**kw)(cubes[0])


def _curves(case, array, t, values, bits):
    from improver.calibration.reliability_calibration import ManipulateReliabilityTable

    return ManipulateReliabilityTable(minimum_forecast_count=5)(_summed(case, array, t, values, bits))


@command("apply-reliability-calibration", [F("probability_of_air_temperature_above_threshold", "1", 0, 1, leads=("T",), falling=True,
                                             thr=("air_temperature", "K", [275.0, 285.0], "above")),
                                           B(_curves, 270, 300, optional=True)])
def apply_reliability(cubes, **kw):
    from improver.calibration.reliability_calibration import ApplyReliabilityCalibration

    if len(cubes) < 2:
        return cubes[0]
    return ApplyReliabilityCalibration(**kw)(*cubes)


@command("calculate-forecast-bias", [B(_history(0, ""), 270, 300), B(_history(1, ""), 275, 295)], TRUTH)
def forecast_bias(cubes, truth_attribute):
    from improver.calibration.simple_bias_correction import CalculateForecastBias

    return CalculateForecastBias()(*sorted_by(cubes, truth_attribute))


@command("calculate-forecast-bias#order", [B(_history(1, "", 1), 270, 300), B(_history(0, ""), 275, 295)], TRUTH)
def forecast_bias2(cubes, truth_attribute):
    return forecast_bias(cubes, truth_attribute)


def _bias(case, array, t, values, bits):
    from vp import cubes as c

    yx = c.yx_coords(case["grid"])
    t = dict(t, frt=t["frt"] - 86400)
    a = array([len(x.points) for x in yx])
    if any(bits):
        a = np.ma.MaskedArray(a, np.array([bits[i % len(bits)] for i in range(a.size)], bool).reshape(a.shape))
    return c.new_cube(a, "forecast_error_of_air_temperature", "K", yx,
                      [x for x in c.time_coords(dict(t, period=None)) if x.name() != "time"])


@command("apply-bias-correction", [F(*T, leads=("r",)), B(_bias, -5, 5, optional=True)], {
    "lower-bound": number(None, 275, 0), "upper-bound": number(None, 295), "fill-masked-bias-data": flag()})
def apply_bias(cubes, lower_bound, upper_bound, fill_masked_bias_data):
    from improver.calibration.simple_bias_correction import ApplyBiasCorrection

    return ApplyBiasCorrection(lower_bound=lower_bound, upper_bound=upper_bound,
                               fill_masked_bias_values=fill_masked_bias_data)(*cubes)


def dz_module():
    """improver.calibration.dz_rescaling (kept in sys.modules), with a stand-in for pandas.Timedelta if need be."""
    import datetime
    import sys
    import types

    stub = None
    try:
        import pandas  # noqa: F401
    except ImportError:
        stub = types.ModuleType("pandas")
        stub.Timedelta = lambda hours: datetime.timedelta(hours=hours)
        sys.modules["pandas"] = stub
    try:
        from improver.calibration import dz_rescaling
    finally:
        if stub is not None:
            del sys.modules["pandas"]
    return dz_rescaling


def _factors(case, array, t, values, bits):
    dz_module()
    from iris.coords import AuxCoord, DimCoord
    from vp import cubes as c

    a = array([3])
    cube = c.spot_cube(a, "scaled_vertical_displacement", "1", 3, alts=[0, 20, 40], lats=[50, 51, 52], lons=[-3, -2, -1])
    cube.add_aux_coord(DimCoord(np.int32(t["fp"] + 3600), standard_name="forecast_period", units="seconds"))
    cube.add_aux_coord(AuxCoord(np.int32(t["frt"] % 86400 // 3600 * 3600), long_name="forecast_reference_time_hour", units="seconds"))
    return cube


@command("apply-dz-rescaling", [B(_spots("wind_speed", "m s-1", "p"), 0, 30), B(_factors, 0.8, 1.2)],
         {"site-id-coord": opt("wmo_id", "wmo_id", "altitude", "met_office_site_id")})
def apply_dz(cubes, site_id_coord):
    from improver.calibration.dz_rescaling import ApplyDzRescaling

    return ApplyDzRescaling(site_id_coord=site_id_coord)(*cubes)


EMOS = {"distribution": opt(None, "norm", "truncnorm", required=True), **TRUTH, "point-by-point": flag(),
        "use-default-initial-guess": flag(), "units": opt(None, "K", "celsius"), "predictor": opt("mean", "mean", "realizations"),
        "tolerance": number(0.02, 1, 0.1), "max-iterations": whole(1000, 30, 60)}


@command("estimate-emos-coefficients", [B(_history(0, "r"), 270, 300), B(_history(1, "r"), 275, 295)], EMOS)
def estimate_emos(cubes, truth_attribute, units, distribution, **kw):
    from improver.calibration.ensemble_calibration import EstimateCoefficientsForEnsembleCalibration

    return EstimateCoefficientsForEnsembleCalibration(distribution, desired_units=units, **kw)(
        *sorted_by(cubes, truth_attribute), landsea_mask=None)


def _emos(case, array, t, values, bits):
    """Coefficients."""
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube, CubeList
    from vp import cubes as c

    out = CubeList()
    for i, name in enumerate(("alpha", "beta", "gamma", "delta")):
        attrs = dict(c.ATTRS, diagnostic_standard_name="air_temperature", distribution="norm")
        value = np.float32([values[0] / 10 - 1, 0.9 + values[1] / 100, values[2] / 20, 0.5 + values[3] / 20][i])
        cube = Cube(value, long_name="emos_coefficient_" + name, units="K" if name == "alpha" else "1", attributes=attrs)
        if name == "beta":
            cube = Cube(np.array([value]), long_name=cube.long_name, units="1", attributes=attrs)
            cube.add_dim_coord(DimCoord(np.int32([0]), long_name="predictor_index", units="1"), 0)
            cube.add_aux_coord(AuxCoord(np.array(["air_temperature"]), long_name="predictor_name", units="no_unit"), 0)
        for x in c.time_coords(dict(t, period=None)):
            if x.name() != "time":
                cube.add_aux_coord(x)
        for axis, p in zip("yx", c.yx_coords(case["grid"])):
            b = np.array([p.points.min(), p.points.max()], np.float32)
            cube.add_aux_coord(AuxCoord(np.float32(b.mean()), bounds=b, standard_name=p.standard_name, units="m",
                                        coord_system=p.coord_system))
        out.append(cube)
    return out


VALID = [None]


@command("apply-emos-coefficients", [F(*T, leads=("r",)), B(_emos, optional=True),
                                     F("probability_of_air_temperature_above_threshold", "1", 0, 1, leads=("T",), falling=True,
                                       thr=("air_temperature", "K", [275.0, 285.0], "above"), optional=True)], {
    "validity-times": words(None, "0000,0300,0600,0900,1200,1500,1800,2100", "0000,0100,0200,0300,0400,0500,0600,0700,0800,0900,"
                            "1000,1100,1200,1300,1400,1500,1600,1700,1800,1900,2000,2100,2200,2300"),
    "realizations-count": whole(None, 2, 4), "randomise": flag(), "random-seed": whole(None, 0, 3),
    "ignore-ecc-bounds-exceedance": flag(), "tolerate-time-mismatch": flag(), "predictor": opt("mean", "mean"),
    "percentiles": words(None, "50", "10,50,90")})
def apply_emos(cubes, validity_times, percentiles, **kw):
    """Calibrated, or (outside the validity times, or without coefficients) as it is in the form asked for, with a warning."""
    from improver.calibration.ensemble_calibration import ApplyEMOS
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ResamplePercentiles

    forecast = cubes[0]
    rest = cubes[1:]
    coeffs = [x for x in rest if isinstance(x, list)]
    template = [x for x in rest if not isinstance(x, list)]
    ignore = kw.pop("ignore_ecc_bounds_exceedance")
    s = int(forecast.coord("time").points[0]) % 86400
    late = validity_times is not None and "%02d%02d" % (s // 3600, s % 3600 // 60) not in validity_times
    if late or not coeffs:
        if template and (not late or not percentiles):
            res = template[0]
        elif percentiles:
            res = ResamplePercentiles(ecc_bounds_warning=ignore)(forecast, percentiles=[np.float32(p) for p in percentiles])
        else:
            res = forecast
        res.attributes["comment"] = ("Warning: Calibration of this forecast has been attempted, however, no calibration has "
                                     "been applied.")
        return res
    return ApplyEMOS(percentiles=percentiles)(forecast, coeffs[0], additional_fields=None, land_sea_mask=None,
                                              prob_template=template[0] if template else None, ignore_ecc_bounds=ignore, **kw)


# ---------------------------------------------------------------- nowcasts
def _radar(k):
    def build(case, array, t, values, bits):
        from vp import cubes as c

        yx = c.yx_coords(dict(case["grid"], ny=18, nx=18, dy=2000, dx=2000))
        a = np.zeros((18, 18), np.float32)
        j, i = 4 + values[0] % 4 + k, 4 + values[1] % 5 + k
        a[j:j + 4, i:i + 5] = (array([4, 5]) + 1) / np.float32(3.6e6)
        tt = {"frt": t["frt"] + 900 * k, "fp": 0}
        return c.new_cube(a, "lwe_precipitation_rate", "m s-1", yx, c.time_coords(tt))
    return build


def _oe(case, array, t, values, bits):
    from iris.coords import DimCoord
    from vp import cubes as c

    yx = c.yx_coords(dict(case["grid"], ny=18, nx=18, dy=2000, dx=2000))
    base = t["frt"] - t["frt"] % 3600
    times = np.array([base + 3600 * k for k in (-1, 0, 1, 2)], np.int64)
    a = array([4, 18, 18]) / np.float32(3.6e6 * 40)
    dims = [DimCoord(times, standard_name="time", units=c.TIME_UNIT)]
    return c.new_cube(a, "orographic_enhancement", "m s-1", dims + yx, [])


@command("nowcast-optical-flow", [B(_oe), B(_radar(2)), B(_radar(0)), B(_radar(1), optional=True)])
def optical_flow(cubes):
    from improver.nowcasting.optical_flow import generate_optical_flow_components
    from improver.nowcasting.utilities import ApplyOrographicEnhancement
    from iris.cube import CubeList

    radar = sorted(cubes[1:], key=lambda x: x.coord("time").points[0])
    fields = ApplyOrographicEnhancement("subtract")(CubeList(radar), cubes[0])
    return CubeList(generate_optical_flow_components(fields, ofc_box_size=30, smart_smoothing_iterations=100))


# ---------------------------------------------------------------- metadata cubes
NEEDED = {"title": "MOGREPS-UK Forecast on UK 2 km Standard Grid", "source": "Met Office Unified Model",
          "institution": "Met Office"}
TWEAKS = [{"time": "20200102T0600Z", "frt": "20200101T1800Z"},
          {"time": "20200102T0600Z", "frt": "20200102T0000Z", "time_bounds": ["20200102T0300Z", "20200102T0600Z"]},
          {"coords": {"realizations": [0, 1, 4]}},
          {"coords": {"percentiles": [10.0, 50.0], "heights": [5.0, 10.0]}, "attributes": {"mosg__model": "x"}},
          {"coords": {"thresholds": [280.0, 290.0]}, "name": "air_temperature", "spp__relative_to_threshold": "less_than"},
          {"coords": {"realizations": [0, 1], "pressures": [100000.0, 85000.0]}, "resolution": 5000}]


@command("generate-metadata-cube", [], {
    "mandatory-attributes-json": {"default": None, "flag": False, "required": "positional", "alts": [(("json", NEEDED), NEEDED)]},
    "name": opt("air_pressure_at_sea_level", "air_temperature", "wind_speed"), "units": opt(None, "K", "Pa"),
    "spatial-grid": opt("latlon", "latlon", "equalarea", "polar"), "time-period": whole(None, 60, 180),
    "json-input": js(None, *TWEAKS), "ensemble-members": whole(8, 2, 3), "x-grid-spacing": number(None, 2000, 0.5),
    "y-grid-spacing": number(None, 2000, 0.5), "domain-corner": words(None, "-10,-20.5", "1000,2000", conv=float),
    "npoints": whole(71, 3, 5)})
def metadata_cube(cubes, mandatory_attributes_json, json_input, **kw):
    from datetime import timezone
    from improver.synthetic_data.generate_metadata import generate_metadata

    extra = dict(json_input or {})
    for key in ("time", "frt"):
        if key in extra:
            extra[key] = _moment(extra[key]).replace(tzinfo=timezone.utc).replace(tzinfo=None)
    if "time_bounds" in extra:
        extra["time_bounds"] = [_moment(x) for x in extra["time_bounds"]]
    for key, pts in extra.pop("coords", {}).items():
        if key in ("heights", "pressures"):
            extra["height_levels"], extra["pressure"] = pts, key == "pressures"
        else:
            extra["leading_dimension"] = pts
            extra["cube_type"] = {"realizations": "variable", "percentiles": "percentile", "thresholds": "probability"}[key]
    kw.update(extra)
    if kw.get("time_bounds") is None:
        kw.pop("time_bounds", None)
    return generate_metadata(mandatory_attributes_json, **kw)
