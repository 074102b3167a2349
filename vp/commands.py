"""The commands of the command line: their inputs, options with documented defaults, and the plugin
call each must be equal to.  Used by checks C40 and C41."""
import numpy as np

X = object()          # option that must be given


def F(name, units, lo, hi, leads=(), **kw):
    """A gridded input over leading dimensions (r, p, h, t:<levels>) and y, x."""
    return dict(name=name, units=units, lo=lo, hi=hi, leads=leads, **kw)


def opt(default, *alternatives, flag=False, required=False, always=False):
    """Alternatives are (text, value) or text (value is the text)."""
    alts = [a if isinstance(a, tuple) else (a, a) for a in alternatives]
    return {"default": default, "alts": alts, "flag": flag, "required": required}


def flag(default=False):
    return {"default": default, "alts": [(None, True)], "flag": True, "required": False}


def number(default, *values, conv=float, required=False):
    return {"default": default, "alts": [(str(v), conv(v)) for v in values], "flag": False, "required": required}


def words(default, *values, conv=str, required=False):
    return {"default": default, "flag": False, "required": required,
            "alts": [(v, [conv(x) for x in v.split(",")]) for v in values]}


def js(default, *values, required=False):
    return {"default": default, "alts": [(("json", v), v) for v in values], "flag": False, "required": required}


COMMANDS = {}


def command(name, inputs, options=None, unary=None):
    """Register `func(cubes, **options)` as what the command must be equal to."""
    def deco(func):
        COMMANDS[name] = {"inputs": inputs, "options": options or {}, "func": func, "unary": unary}
        return func
    return deco


T = ("air_temperature", "K", 270, 300)
R = ("rainfall_rate", "m s-1", 0, 1e-5)
MODEL = opt(None, "mosg__model_configuration")


@command("threshold", [F(*T, leads=("r",), mask=True), F("land_binary_mask", "1", 0, 1, whole=True, optional=True, static=True)], {
    "threshold-values": words(None, "280,285.5", "275", "10.5,11,12", conv=float),
    "threshold-config": js(None, {"280": "None", "290": "None"}, {"280": [279, 282]}),
    "threshold-units": opt(None, "celsius", "K"),
    "comparison-operator": opt(">", "<", "ge", "le", ">="),
    "fuzzy-factor": number(None, 0.99, 0.9),
    "collapse-coord": opt(None, "realization"),
    "vicinity": words(None, "2000", "2500,5000"),
    "fill-masked": number(None, 280)})
def threshold(cubes, **kw):
    from improver.threshold import Threshold

    return Threshold(**kw)(*cubes)


NB = {"neighbourhood-output": opt("probabilities", "probabilities", "probabilities", "percentiles", required=True),
      "neighbourhood-shape": opt("square", "circular", "square"),
      "radii": words(None, "2000", "4100", "2500,4500", required=True),
      "lead-times": words(None, "0,36"),
      "degrees-as-complex": flag(), "weighted-mode": flag(), "area-sum": flag(),
      "percentiles": words(None, "50", "10,30.5,90"),
      "halo-radius": number(None, 2000)}


@command("nbhood", [F("cloud_area_fraction", "1", 0, 1, leads=("r",)),
                    F("land_binary_mask", "1", 0, 1, whole=True, optional=True, static=True)], NB)
def nbhood(cubes, **kw):
    from improver.constants import DEFAULT_PERCENTILES
    from improver.nbhood.nbhood import MetaNeighbourhood

    if kw["percentiles"] is None:
        kw["percentiles"] = [0, 5, 10, 20, 25, 30, 40, 50, 60, 70, 75, 80, 90, 95, 100]
        assert tuple(DEFAULT_PERCENTILES) == tuple(kw["percentiles"])
    return MetaNeighbourhood(**kw)(cubes[0], mask=cubes[1] if len(cubes) > 1 else None)


@command("generate-percentiles", [F(*T, leads=("r",), mask=True)], {
    "coordinates": words(None, "realization", "realization", "realization,latitude"),
    "percentiles": words(None, "50", "10,50,90", "0,33.5,100", conv=float),
    "mask-percentiles": flag(), "optimal-crps-percentiles": flag(), "ignore-ecc-bounds-exceedance": flag(), "skip-ecc-bounds": flag()})
def generate_percentiles(cubes, coordinates, percentiles, mask_percentiles, optimal_crps_percentiles, ignore_ecc_bounds_exceedance,
                         skip_ecc_bounds):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
        ConvertProbabilitiesToPercentiles, RebadgeRealizationsAsPercentiles)
    from improver.percentile import PercentileConverter

    cube = cubes[0]
    if cube.name().startswith("probability_of"):
        return ConvertProbabilitiesToPercentiles(
            ecc_bounds_warning=ignore_ecc_bounds_exceedance, skip_ecc_bounds=skip_ecc_bounds,
            mask_percentiles=mask_percentiles)(cube, percentiles=percentiles)
    if coordinates is None:
        return RebadgeRealizationsAsPercentiles(optimal_crps_percentiles=optimal_crps_percentiles)(cube)
    fast = not np.ma.is_masked(cube.data)
    if fast:
        cube.data = np.ma.getdata(cube.data)
    return PercentileConverter(coordinates, percentiles=percentiles, fast_percentile_method=fast)(cube)


P = "probability_of_air_temperature_above_threshold"
command("generate-percentiles#probabilities", [F(P, "1", 0, 1, leads=("t:273,280,290",), falling=True)],
        COMMANDS["generate-percentiles"]["options"])(generate_percentiles)


@command("generate-realizations", [F(*T, leads=("p",)), F(*T, leads=("r",), optional=True)], {
    "realizations-count": number(None, 3, 4, conv=int), "random-seed": number(None, 0, 3, conv=int),
    "ignore-ecc-bounds-exceedance": flag(), "skip-ecc-bounds": flag()})
def generate_realizations(cubes, realizations_count, random_seed, ignore_ecc_bounds_exceedance, skip_ecc_bounds):
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import (
        ConvertProbabilitiesToPercentiles, EnsembleReordering, RebadgePercentilesAsRealizations, ResamplePercentiles)

    if cubes[0].coords("realization"):
        return cubes[0]
    if realizations_count is None:
        if len(cubes) < 2:
            raise ValueError("neither")
        realizations_count = len(cubes[1].coord("realization").points)
    plugin = ConvertProbabilitiesToPercentiles if cubes[0].name().startswith("probability_of") else ResamplePercentiles
    p = plugin(ecc_bounds_warning=ignore_ecc_bounds_exceedance, skip_ecc_bounds=skip_ecc_bounds)(
        cubes[0], no_of_percentiles=realizations_count)
    if len(cubes) > 1:
        return EnsembleReordering()(p, cubes[1], random_seed=random_seed)
    return RebadgePercentilesAsRealizations()(p)


for _k, _slot in (("probabilities", F(P, "1", 0, 1, leads=("t:273,280,290",), falling=True)), ("realizations", F(*T, leads=("r",)))):
    command("generate-realizations#" + _k, [_slot, F(*T, leads=("r",), optional=True)],
            COMMANDS["generate-realizations"]["options"])(generate_realizations)


@command("combine", [F(*R, leads=("r",)), F(*R, leads=("r",), fp=3), F(*R, leads=("r",), fp=6, optional=True)], {
    "operation": opt("+", "-", "mean", "max", "min", "*", "add"),
    "new-name": opt(None, "lwe_snowfall_rate"), "minimum-realizations": opt(None, ("2", 2), ("9", 9)),
    "cell-method-coordinate": opt(None, "time"), "expand-bound": opt(True, ("false", False), ("True", True))})
def combine(cubes, operation, **kw):
    from improver.cube_combiner import Combine

    return Combine(operation, broadcast=None, **kw)(*cubes)


@command("between-thresholds", [F("probability_of_air_temperature_above_threshold", "1", 0, 1, leads=("t:273,280,290",))], {
    "threshold-ranges": js(None, [[273, 280]], [[273, 280], [280, 290]], [[0, 7]], required=True),
    "threshold-units": opt(None, "K", "celsius")})
def between(cubes, threshold_ranges, threshold_units):
    from improver.between_thresholds import OccurrenceBetweenThresholds

    return OccurrenceBetweenThresholds(threshold_ranges, threshold_units or "K")(cubes[0])


@command("vicinity", [F(*T, leads=("r",))], {"vicinity": words(None, "2000", "2500,5000", conv=float, required="positional")})
def vicinity(cubes, vicinity):
    from improver.utilities.spatial import OccurrenceWithinVicinity

    return OccurrenceWithinVicinity(radii=vicinity).process(cubes[0])


@command("extract", [F(*T, leads=("r",))], {
    "constraints": opt(None, ("realization=1", ["realization=1"]), ("realization=[0:1]", ["realization=[0:1]"]),
                       ("realization=7", ["realization=7"]), ("air_temperature=2", ["air_temperature=2"]),
                       ("projection_x_coordinate=[2.0:6.0]", ["projection_x_coordinate=[2.0:6.0]"]), required=True),
    "units": words(None, "1", "km"), "ignore-failure": flag()})
def extract(cubes, constraints, units, ignore_failure):
    from improver.utilities.cube_extraction import ExtractSubCube

    return ExtractSubCube(constraints, units=units, ignore_failure=ignore_failure)(cubes[0])


@command("standardise", [F(*T, leads=("r",))], {
    "attributes-config": js(None, {"title": "remove"}, {"note": "a b"}, {"source": "XX"}),
    "coords-to-remove": words(None, "realization", "forecast_period", "forecast_period,forecast_reference_time"),
    "coord-modification": js(None, {"height": 2}, {"forecast_period": 3600}),
    "new-name": opt(None, "dew_point_temperature"), "new-units": opt(None, "celsius", "m")}, unary=(0, 1, 2, 3, 4))
def standardise(cubes, attributes_config, **kw):
    from improver.standardise import StandardiseMetadata

    return StandardiseMetadata(attributes_dict=attributes_config, **kw)(cubes[0])


@command("collapse-realizations", [F(*T, leads=("r",))], {
    "method": opt("mean", "max", "min", "std_dev", "median"), "new-name": opt(None, "ensemble_statistic")})
def collapse_realizations(cubes, method, new_name):
    from improver.utilities.cube_manipulation import collapse_realizations as func

    result = func(cubes[0], method=method)
    if new_name:
        result.rename(new_name)
    return result


@command("regrid", [F(*T, leads=("r",)), F("surface_altitude", "m", 0, 100, static=True, sub=True),
                    F("land_binary_mask", "1", 0, 1, whole=True, optional=True, static=True)], {
    "regrid-mode": opt("bilinear", "nearest", "nearest-2", "bilinear-2", "nearest-with-mask"),
    "extrapolation-mode": opt("nanmask", "nan", "mask", "extrapolate"),
    "land-sea-mask-vicinity": number(25000.0, 3000), "regridded-title": opt(None, "Post-Processed XX")})
def regrid(cubes, regrid_mode, extrapolation_mode, land_sea_mask_vicinity, regridded_title):
    from improver.regrid.landsea import RegridLandSea

    lsm = cubes[2] if len(cubes) > 2 else None
    if lsm is not None and "with-mask" not in regrid_mode:
        raise ValueError("mask")
    return RegridLandSea(regrid_mode=regrid_mode, extrapolation_mode=extrapolation_mode, landmask=lsm,
                         landmask_vicinity=land_sea_mask_vicinity)(cubes[0], cubes[1], regridded_title=regridded_title)


WEIGHTS = {"uk_det": {"forecast_period": [0, 12, 48], "weights": [0.2, 0.5, 1.0], "units": "hours"},
           "uk_ens": {"forecast_period": [0, 12, 48], "weights": [0.8, 0.5, 0.3], "units": "hours"}}
BLEND = {"coordinate": opt("forecast_reference_time", "forecast_reference_time", "model_id", "model_configuration", required=True),
         "weighting-method": opt("linear", "nonlinear", "dict"),
         "weighting-coord": opt("forecast_period", "forecast_period"),
         "weighting-config": js(None, WEIGHTS), "attributes-config": js(None, {"title": "blended"}),
         "cycletime": opt(None, "20171111T0000Z", "20171110T0600Z"), "y0val": number(None, 1, 0.25, 2), "ynval": number(None, 1, 3),
         "cval": number(None, 0.85), "model-id-attr": opt(None, "mosg__model_configuration"),
         "record-run-attr": opt(None, "mosg__model_run"),
         "spatial-weights-from-mask": flag(), "fuzzy-length": number(20000.0, 4000)}
BLENDS = [F(*T, mask=True, model="uk_ens"), F(*T, mask=True, frt=3, model="uk_det"), F(*T, frt=6, optional=True, model="uk_det")]


def blend(cubes, coordinate, weighting_method, weighting_coord, weighting_config, attributes_config, cycletime, y0val, ynval,
          cval, model_id_attr, record_run_attr, spatial_weights_from_mask, fuzzy_length):
    from improver.blending.calculate_weights_and_blend import WeightAndBlend

    if (weighting_method == "linear" and cval or weighting_method == "nonlinear" and (y0val or ynval)
            or weighting_method == "dict" and weighting_config is None
            or coordinate.startswith("model") and model_id_attr is None
            or record_run_attr and model_id_attr is None):
        raise RuntimeError("options")
    return WeightAndBlend(coordinate, weighting_method, weighting_coord=weighting_coord, wts_dict=weighting_config, y0val=y0val,
                          ynval=ynval, cval=cval)(
        cubes, cycletime=cycletime, model_id_attr=model_id_attr, record_run_attr=record_run_attr,
        spatial_weights=spatial_weights_from_mask, fuzzy_length=fuzzy_length, attributes_dict=attributes_config)


command("weighted-blending", BLENDS, BLEND)(blend)


@command("blend-with-vicinity-and-rename", BLENDS, dict(
    BLEND, **{"new-name": opt(None, "lwe_thickness"), "vicinity-radius": number(None, 10000)}))
def blend_vicinity(cubes, new_name, vicinity_radius, **kw):
    from improver.utilities.spatial import update_name_and_vicinity_coord

    if new_name is None and vicinity_radius is None:
        raise ValueError("neither")
    result = blend(cubes, **kw)
    update_name_and_vicinity_coord(result, new_name, vicinity_radius)
    return result


@command("blend-cycles-and-realizations", [F(*T, leads=("r",)), F(*T, leads=("r",), frt=6)],
         {"cycletime": opt(None, "20171111T0000Z")})
def blend_cycles(cubes, cycletime):
    from iris.cube import CubeList
    from improver.blending.calculate_weights_and_blend import WeightAndBlend
    from improver.utilities.cube_manipulation import collapse_realizations as func

    means = CubeList(func(x) for x in cubes)
    return WeightAndBlend("forecast_reference_time", "linear", y0val=0.5, ynval=0.5)(means, cycletime=cycletime)


@command("blend-adjacent-points", [F(*T, leads=()), F(*T, leads=(), fp=3), F(*T, leads=(), fp=6)], {
    "coordinate": opt("forecast_period", "forecast_period", "forecast_period", "time", required=True),
    "central-point": number(None, 12, 15, 18, 900, required=True), "units": opt(None, "hours", "minutes", required=True),
    "width": number(None, 4, 7, 240, required=True), "blend-time-using-forecast-period": flag()})
def blend_adjacent(cubes, coordinate, central_point, units, width, blend_time_using_forecast_period):
    from iris.cube import CubeList
    from improver.blending.blend_across_adjacent_points import TriangularWeightedBlendAcrossAdjacentPoints
    from improver.utilities.cube_manipulation import MergeCubes

    if "time" in coordinate:
        raise ValueError("time")
    cube = MergeCubes()(CubeList(cubes), check_time_bounds_ranges=blend_time_using_forecast_period)
    return TriangularWeightedBlendAcrossAdjacentPoints(coordinate, central_point, units, width)(cube)


@command("clip", [F(*T, leads=("r",), mask=True)], {"min-value": number(None, 280, 0), "max-value": number(None, 285, 281.5)}, unary=(0, 1))
def clip(cubes, min_value, max_value):
    if min_value is None and max_value is None:
        raise ValueError("no limit")
    cube = cubes[0]
    d = np.ma.getdata(cube.data)
    d = d if min_value is None else np.where(d < min_value, np.float32(min_value), d)
    d = d if max_value is None else np.where(d > max_value, np.float32(max_value), d)
    cube.data = np.ma.MaskedArray(d, np.ma.getmaskarray(cube.data)) if np.ma.isMaskedArray(cube.data) else d
    return cube


@command("convection-ratio", [F("lwe_convective_precipitation_rate", "m s-1", 0, 1e-5), F("lwe_stratiform_precipitation_rate", "m s-1", 0, 1e-5)],
         {"model-id-attr": MODEL})
def convection_ratio(cubes, model_id_attr):
    from improver.precipitation_type.convection import ConvectionRatioFromComponents

    return ConvectionRatioFromComponents()(cubes, model_id_attr=model_id_attr)


@command("copy-attributes", [F(*T), F(*R, model="uk_ens")],
         {"attributes": words(None, "source", "mosg__model_configuration,source", "absent", required=True)})
def copy_attributes(cubes, attributes):
    from improver.utilities.copy_attributes import CopyAttributes

    return CopyAttributes(attributes)(cubes[0], template_cube=cubes[1])


@command("expected-value", [F(*T, leads=("r",))])
def expected_value(cubes):
    from improver.expected_value import ExpectedValue

    return ExpectedValue()(cubes[0])


command("expected-value#percentiles", [F(*T, leads=("p",))])(expected_value)
command("expected-value#probabilities", [F(P, "1", 0, 1, leads=("t:273,280,290",), falling=True)])(expected_value)


@command("feels-like-temp", [F(*T), F("wind_speed", "m s-1", 0, 20), F("relative_humidity", "1", 0, 1), F("air_pressure_at_sea_level", "Pa", 95000, 101000)],
         {"model-id-attr": MODEL})
def feels_like(cubes, model_id_attr):
    from improver.feels_like_temperature import calculate_feels_like_temperature

    return calculate_feels_like_temperature(*cubes, model_id_attr=model_id_attr)


@command("apply-mask", [F(*T, leads=("r",)), F("land_binary_mask", "1", 0, 1, leads=("r",), whole=True)], {
    "mask-name": opt("land_binary_mask", "land_binary_mask", "land_binary_mask", "air_pressure", required=True),
    "invert-mask": opt(False, ("True", True), ("False", False))})
def apply_mask(cubes, mask_name, invert_mask):
    from improver.utilities.mask import apply_mask as func

    return func(*cubes, mask_name=mask_name, invert_mask=invert_mask)


@command("merge", [F(*T), F(*T, fp=3), F(*T, fp=6, optional=True)])
def merge(cubes):
    from iris.cube import CubeList
    from improver.utilities.cube_manipulation import MergeCubes

    return MergeCubes()(CubeList(cubes))


@command("max-in-time-window", [F("wind_gust", "m s-1", 0, 9, leads=("r",), period=1),
                                F("wind_gust", "m s-1", 0, 9, leads=("r",), fp=1, period=1)],
         {"minimum-realizations": opt(None, ("2", 2), ("8", 8))})
def max_in_time_window(cubes, minimum_realizations):
    from iris.cube import CubeList
    from improver.cube_combiner import MaxInTimeWindow

    return MaxInTimeWindow(minimum_realizations=minimum_realizations)(CubeList(cubes))


@command("max-in-height", [F(*T, leads=("h",))], {
    "lower-height-bound": number(None, 0, 50, 150), "upper-height-bound": number(None, 150, 60, 250), "new-name": opt(None, "max_t")})
def max_in_height(cubes, **kw):
    from improver.utilities.cube_manipulation import maximum_in_height

    return maximum_in_height(cubes[0], **kw)


@command("height-of-max-vertical-velocity", [F("upward_air_velocity", "m s-1", 0, 4, leads=("h",)), F("max_upward_air_velocity", "m s-1", 0, 4, maxof=0)], {
    "find-lowest": opt(True, ("False", False), ("True", True)), "new-name": opt("height_of_maximum_upward_air_velocity", "hmax")})
def height_of_max(cubes, find_lowest, new_name):
    from improver.utilities.cube_manipulation import height_of_maximum

    return height_of_maximum(cubes[0], cubes[1], find_lowest, new_name)


@command("create-grid-with-halo", [F("surface_altitude", "m", 0, 9, static=True)], {"halo-radius": number(162000.0, 4000, 2000.0)})
def grid_with_halo(cubes, halo_radius):
    from improver.utilities.pad_spatial import create_cube_with_halo

    return create_cube_with_halo(cubes[0], halo_radius)


@command("enforce-consistent-forecasts", [F("wind_speed", "m s-1", 0, 20, leads=("r",)), F("wind_gust", "m s-1", 0, 20, leads=("r",))], {
    "ref-name": opt("wind_speed", "wind_speed", "wind_gust", required=True),
    "additive-amount": words([0.0], "2", "-3.5", "0,4", conv=float),
    "multiplicative-amount": words([1.0], "1.1", "1,1.5", conv=float),
    "comparison-operator": words([">="], "<=", ">=,<="), "diff-for-warning": number(None, 5, 50)})
def enforce(cubes, ref_name, additive_amount, multiplicative_amount, comparison_operator, diff_for_warning):
    from improver.utilities.forecast_reference_enforcement import EnforceConsistentForecasts

    args = [additive_amount, multiplicative_amount, comparison_operator]
    if len({len(a) for a in args}) != 1:
        raise ValueError("lengths")
    if len(args[0]) == 1:
        args = [a[0] for a in args]
    ref = [x for x in cubes if x.name() == ref_name][0]
    fcst = [x for x in cubes if x.name() != ref_name][0]
    return EnforceConsistentForecasts(additive_amount=args[0], multiplicative_amount=args[1], comparison_operator=args[2],
                                      diff_for_warning=diff_for_warning)(fcst, ref)


@command("field-texture", [F("probability_of_air_temperature_above_threshold", "1", 0, 1, leads=("t:0.5,0.8125", "r"), whole=True)], {
    "nbhood-radius": number(20000.0, 4000, 6000), "textural-threshold": number(0.05, 0.3), "diagnostic-threshold": number(0.8125, 0.5),
    "model-id-attr": MODEL})
def field_texture(cubes, nbhood_radius, textural_threshold, diagnostic_threshold, model_id_attr):
    from improver.threshold import Threshold
    from improver.utilities.textural import FieldTexture

    _ = Threshold
    return FieldTexture(nbhood_radius, textural_threshold, diagnostic_threshold, model_id_attr=model_id_attr)(cubes[0])


@command("generate-solar-time", [F("surface_altitude", "m", 0, 9, static=True)], {
    "time": opt(None, "20171110T0400Z", "20240229T1830Z", required=True), "new-title": opt(None, "solar time")})
def solar_time(cubes, time, new_title):
    import datetime
    from improver.generate_ancillaries.generate_derived_solar_fields import GenerateSolarTime

    t = datetime.datetime(int(time[:4]), int(time[4:6]), int(time[6:8]), int(time[9:11]), int(time[11:13]), tzinfo=datetime.timezone.utc)
    return GenerateSolarTime()(cubes[0], t, new_title=new_title)


@command("generate-landmask-ancillary", [F("test_land_mask", "1", 0, 1, static=True)])
def landmask(cubes):
    from improver.generate_ancillaries.generate_ancillary import CorrectLandSeaMask

    return CorrectLandSeaMask()(cubes[0])


BANDS = {"bounds": [[-100, 30], [30, 70], [70, 1000]], "units": "m"}


@command("generate-topography-bands-mask", [F("surface_altitude", "m", 0, 600, static=True), F("land_binary_mask", "1", 0, 1, whole=True, static=True, optional=True)],
         {"bands-config": js(None, BANDS)})
def bands_mask(cubes, bands_config):
    from improver.generate_ancillaries.generate_ancillary import GenerateOrographyBandAncils

    bands = bands_config or {"bounds": [[-500., 50.], [50., 100.], [100., 150.], [150., 200.], [200., 250.], [250., 300.], [300., 400.],
                                        [400., 500.], [500., 650.], [650., 800.], [800., 950.], [950., 6000.]], "units": "m"}
    return GenerateOrographyBandAncils()(cubes[0], bands, landmask=cubes[1] if len(cubes) > 1 else None).concatenate_cube()


@command("generate-topography-bands-weights", [F("surface_altitude", "m", 0, 600, static=True), F("land_binary_mask", "1", 0, 1, whole=True, static=True, optional=True)],
         {"bands-config": js(None, BANDS)})
def bands_weights(cubes, bands_config):
    from improver.generate_ancillaries.generate_topographic_zone_weights import GenerateTopographicZoneWeights

    bands = bands_config or {"bounds": [[-500., 50.], [50., 100.], [100., 150.], [150., 200.], [200., 250.], [250., 300.], [300., 400.],
                                        [400., 500.], [500., 650.], [650., 800.], [800., 950.], [950., 6000.]], "units": "m"}
    return GenerateTopographicZoneWeights()(cubes[0], bands, landmask=cubes[1] if len(cubes) > 1 else None)


@command("generate-orographic-smoothing-coefficients", [F("surface_altitude", "m", 0, 600, static=True),
                                                        F("land_binary_mask", "1", 0, 1, whole=True, static=True, optional=True)], {
    "min-gradient-smoothing-coefficient": number(0.5, 0.4, 0.1), "max-gradient-smoothing-coefficient": number(0.0, 0.2),
    "power": number(1.0, 2, 0.5), "use-mask-boundary": flag(), "invert-mask": flag()})
def smoothing(cubes, **kw):
    from improver.generate_ancillaries.generate_orographic_smoothing_coefficients import OrographicSmoothingCoefficients

    return OrographicSmoothingCoefficients(**kw)(cubes[0], cubes[1] if len(cubes) > 1 else None)


@command("interpolate-using-difference", [F(*T, mask=True), F(*T), F(*T, optional=True)], {"limit-as-maximum": opt(True, ("False", False), ("True", True))})
def interpolate_difference(cubes, limit_as_maximum):
    from improver.utilities.interpolation import InterpolateUsingDifference

    return InterpolateUsingDifference(limit_as_maximum=limit_as_maximum)(
        cubes[0], reference_cube=cubes[1], limit=cubes[2] if len(cubes) > 2 else None)


LS = {"neighbourhood-shape": opt("square", "circular"), "radii": words(None, "2000", "4100", "2500,4500", conv=float, required=True),
      "lead-times": words(None, "0,48", conv=int), "area-sum": flag()}


@command("nbhood-land-and-sea", [F("cloud_area_fraction", "1", 0, 1, leads=("r",)), F("land_binary_mask", "1", 0, 1, whole=True, static=True)], LS)
def land_and_sea(cubes, neighbourhood_shape, radii, lead_times, area_sum):
    from improver.nbhood.nbhood import NeighbourhoodProcessing

    if lead_times is None:
        r = radii[0]
    elif len(radii) != len(lead_times):
        raise RuntimeError("lengths")
    else:
        r = radii
    cube, mask = cubes
    land = mask.data == 1
    out, where = None, None
    for points in (land, ~land):
        if points.any():
            res = NeighbourhoodProcessing(neighbourhood_shape, r, lead_times=lead_times, sum_only=area_sum, re_mask=True)(
                cube.copy(), mask.copy(data=points.astype(np.int8)))
            if out is None:
                out = res
            else:
                values = np.where(np.broadcast_to(points, res.shape), np.ma.getdata(res.data), np.ma.getdata(out.data))
                out = out.copy(data=values)
    _ = where
    return out


@command("nbhood-iterate-with-mask", [F("cloud_area_fraction", "1", 0, 1, leads=("r",)), F("topographic_zone_mask", "1", 0, 1, whole=True, static=True, leads=("z",)),
                                      F("topographic_zone_weights", "1", 0.5, 0.5, static=True, leads=("z",), optional=True)],
         dict(LS, **{"coord-for-masking": opt("topographic_zone", "topographic_zone", required=True)}))
def iterate_with_mask(cubes, coord_for_masking, neighbourhood_shape, radii, lead_times, area_sum):
    from improver.nbhood.use_nbhood import ApplyNeighbourhoodProcessingWithAMask

    if lead_times is not None and len(radii) != len(lead_times):
        raise ValueError("lengths")
    return ApplyNeighbourhoodProcessingWithAMask(
        coord_for_masking, neighbourhood_shape, radii if lead_times else radii[0] if len(radii) == 1 else radii, lead_times=lead_times,
        collapse_weights=cubes[2] if len(cubes) > 2 else None, sum_only=area_sum)(cubes[0], cubes[1])


@command("phase-mask", [F("snow_fraction", "1", 0, 1, leads=("r",))], {"phase": opt("rain", "rain", "snow", "sleet", "hail", required="positional"), "model-id-attr": MODEL})
def phase_mask(cubes, phase, model_id_attr):
    from improver.psychrometric_calculations.significant_phase_mask import SignificantPhaseMask

    return SignificantPhaseMask(model_id_attr=model_id_attr)(cubes[0], phase)


@command("relabel-to-period", [F(*T, mid=True)], {"period": number(None, 1, 3, conv=int)})
def relabel(cubes, period):
    from improver.utilities.temporal import relabel_to_period

    return relabel_to_period(cubes[0], period)


@command("integrate-time-bounds", [F(*R, period=3)], {"new-name": opt(None, "lwe_thickness_of_precipitation_amount")})
def integrate_time_bounds(cubes, new_name):
    from improver.utilities.temporal import integrate_time

    return integrate_time(cubes[0], new_name=new_name)


@command("resolve-wind-components", [F("wind_speed", "m s-1", 0, 20), F("wind_from_direction", "degrees", 0, 350)])
def resolve(cubes):
    from improver.wind_calculations.wind_components import ResolveWindComponents

    return list(ResolveWindComponents()(*cubes))


@command("sleet-probability", [F("probability_of_snow", "1", 0, 0.5), F("probability_of_rain", "1", 0, 0.5)])
def sleet(cubes):
    from improver.precipitation_type.calculate_sleet_prob import calculate_sleet_probability

    return calculate_sleet_probability(*cubes)


@command("snow-fraction", [F("rainfall_rate", "m s-1", 0, 1e-5), F("lwe_snowfall_rate", "m s-1", 0, 1e-5)], {"model-id-attr": MODEL})
def snow_fraction(cubes, model_id_attr):
    from iris.cube import CubeList
    from improver.precipitation_type.snow_fraction import SnowFraction

    return SnowFraction(model_id_attr=model_id_attr)(CubeList(cubes))


@command("temp-lapse-rate", [F(*T), F("surface_altitude", "m", 0, 200, static=True, optional=True), F("land_binary_mask", "1", 0, 1, whole=True, static=True, optional=True)], {
    "max-height-diff": number(35.0, 50, 0, -1), "nbhood-radius": number(7, 1, 2, -1, conv=int), "max-lapse-rate": number(0.0294, 0.02, -0.02),
    "min-lapse-rate": number(-0.0098, -0.02, 0.01), "dry-adiabatic": flag(), "model-id-attr": MODEL})
def lapse_rate(cubes, max_height_diff, nbhood_radius, max_lapse_rate, min_lapse_rate, dry_adiabatic, model_id_attr):
    from improver.lapse_rate import LapseRate
    from improver.metadata.utilities import create_new_diagnostic_cube, generate_mandatory_attributes

    if dry_adiabatic:
        return create_new_diagnostic_cube(
            "air_temperature_lapse_rate", "K m-1", cubes[0], generate_mandatory_attributes([cubes[0]], model_id_attr=model_id_attr),
            data=np.full(cubes[0].shape, -0.0098, np.float32))
    if min_lapse_rate > max_lapse_rate or max_height_diff < 0 or nbhood_radius < 0:
        raise ValueError("limits")
    if len(cubes) < 3:
        raise RuntimeError("missing")
    return LapseRate(max_height_diff=max_height_diff, nbhood_radius=nbhood_radius, max_lapse_rate=max_lapse_rate,
                     min_lapse_rate=min_lapse_rate)(*cubes, model_id_attr=model_id_attr)


@command("temporal-interpolate", [F(*T), F(*T, fp=6)], {
    "interval-in-mins": number(None, 180, 60, 100, conv=int), "times": words(None, "+60,+120", "+180"),
    "interpolation-method": opt("linear", "linear"), "accumulation": flag(), "max": flag(), "min": flag()})
def temporal_interpolate(cubes, interval_in_mins, times, **kw):
    from improver.utilities.cube_manipulation import MergeCubes
    from improver.utilities.temporal_interpolation import TemporalInterpolation

    cubes = sorted(cubes, key=lambda x: x.coord("time").points[0])
    return MergeCubes()(TemporalInterpolation(interval_in_minutes=interval_in_mins, times=times, **kw)(*cubes))


@command("time-lagged-ensembles", [F(*T, leads=("r",)), F(*T, leads=("r",), frt=6), F(*T, leads=("r",), frt=12, optional=True)])
def time_lagged(cubes):
    from improver.utilities.time_lagging import GenerateTimeLaggedEnsemble

    return GenerateTimeLaggedEnsemble()(cubes)


@command("uv-index", [F("surface_downwelling_ultraviolet_flux_in_air", "W m-2", 0, 0.5)], {"model-id-attr": MODEL})
def uv(cubes, model_id_attr):
    from improver.uv_index import calculate_uv_index

    return calculate_uv_index(cubes[0], model_id_attr=model_id_attr)


@command("wind-gust-diagnostic", [F("wind_speed_of_gust", "m s-1", 0, 20, leads=("p",), cm="maximum", period=1), F("wind_speed", "m s-1", 0, 20, leads=("p",), cm="maximum", period=1)],
         {"wind-gust-percentile": number(50.0, 10, 95), "wind-speed-percentile": number(95.0, 50, 7)})
def wind_gust(cubes, wind_gust_percentile, wind_speed_percentile):
    from improver.wind_calculations.wind_gust_diagnostic import WindGustDiagnostic

    return WindGustDiagnostic(wind_gust_percentile, wind_speed_percentile)(*cubes)


@command("wind-direction", [F("wind_from_direction", "degrees", 0, 350, leads=("r",))],
         {"backup-method": opt("neighbourhood", "first_realization", "neighbourhood", "best")})
def wind_direction(cubes, backup_method):
    from improver.wind_calculations.wind_direction import WindDirection

    return WindDirection(backup_method=backup_method)(cubes[0])


@command("normalise-to-reference", [F("probability_of_rain", "1", 0, 1), F("probability_of_snow", "1", 0, 1), F("probability_of_sleet", "1", 0, 1)], {
    "reference-name": opt(None, "probability_of_rain", "probability_of_rain", "absent", required=True),
    "return-name": opt(None, "probability_of_snow", "probability_of_sleet", required=True), "ignore-zero-total": flag()})
def normalise(cubes, reference_name, return_name, ignore_zero_total):
    from iris.cube import CubeList
    from improver.utilities.forecast_reference_enforcement import normalise_to_reference

    ref = [x for x in cubes if x.name() == reference_name]
    if len(ref) != 1:
        raise ValueError("reference")
    res = normalise_to_reference(CubeList(x for x in cubes if x.name() != reference_name), ref[0], ignore_zero_total)
    return [x for x in res if x.name() == return_name][0]


@command("wet-bulb-temperature", [F(*T, leads=("h",)), F("relative_humidity", "1", 0.1, 1, leads=("h",)), F("air_pressure", "Pa", 90000, 101000, leads=("h",))],
         {"convergence-condition": number(0.05, 0.01, 2), "model-id-attr": MODEL})
def wet_bulb(cubes, convergence_condition, model_id_attr):
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperature

    return WetBulbTemperature(precision=convergence_condition, model_id_attr=model_id_attr)(*cubes)


@command("wet-bulb-temperature-integral", [F("wet_bulb_temperature", "K", 270, 280, leads=("h",))], {"model-id-attr": MODEL})
def wet_bulb_integral(cubes, model_id_attr):
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperatureIntegral

    return WetBulbTemperatureIntegral(model_id_attr=model_id_attr)(cubes[0])


@command("cloud-condensation-level", [F(*T), F("surface_air_pressure", "Pa", 95000, 101000), F("relative_humidity", "1", 0.1, 1)], {"model-id-attr": MODEL})
def condensation(cubes, model_id_attr):
    from improver.psychrometric_calculations.cloud_condensation_level import MetaCloudCondensationLevel

    return MetaCloudCondensationLevel(model_id_attr=model_id_attr)(*cubes)


@command("vertical-updraught", [F("atmosphere_convective_available_potential_energy", "J kg-1", 0, 2000), F("lwe_precipitation_rate_max", "mm h-1", 0, 40, fp=1, period=1)], {"model-id-attr": MODEL})
def updraught(cubes, model_id_attr):
    from improver.wind_calculations.vertical_updraught import VerticalUpdraught

    return VerticalUpdraught(model_id_attr=model_id_attr)(*cubes)


@command("extend-radar-mask", [F(*R, mask=True), F("radar_coverage", "1", 0, 4, whole=True)])
def extend_mask(cubes):
    from improver.nowcasting.utilities import ExtendRadarMask

    return ExtendRadarMask()(*cubes)


@command("fill-radar-holes", [F("lwe_precipitation_rate", "m s-1", 0, 1e-5, mask=True)])
def fill_holes(cubes):
    from improver.nowcasting.utilities import FillRadarHoles

    return FillRadarHoles()(cubes[0])


@command("apply-lapse-rate", [F(*T, leads=("r",)), F("air_temperature_lapse_rate", "K m-1", -0.0098, 0.02, leads=("r",)), F("surface_altitude", "m", 0, 200, static=True), F("surface_altitude", "m", 0, 200, static=True)])
def apply_lapse_rate(cubes):
    from improver.lapse_rate import ApplyGriddedLapseRate

    return ApplyGriddedLapseRate()(*cubes)


@command("recursive-filter", [F("cloud_area_fraction", "1", 0, 1, leads=("r",)), F("coefficients", "1", 0, 0.5, static=True, coefficients=True)],
         {"iterations": number(1, 2, 3, conv=int)})
def recursive(cubes, iterations):
    from improver.nbhood.recursive_filter import RecursiveFilter

    return RecursiveFilter(iterations=iterations)(cubes[0], smoothing_coefficients=cubes[1])


@command("apply-night-mask", [F("ultraviolet_index", "1", 0, 9, leads=("r",), name_choice=("probability_of_uv_index_below_threshold",))])
def night_mask(cubes):
    from improver.metadata.probabilistic import is_probability
    from improver.utilities.solar import DayNightMask

    cube = cubes[0]
    if is_probability(cube) and "above_threshold" not in cube.name():
        raise ValueError("below")
    night = np.broadcast_to(DayNightMask()(cube).data == 0, cube.shape)
    cube.data = np.where(night, 0, cube.data)
    return cube


HEIGHTS = [10.0, 50.0, 100.0, 150.0]
LEAD_SIZE = {"r": 3, "p": 3, "h": 4, "z": 2}


def lead_size(lead):
    return len(lead[2:].split(",")) if lead.startswith("t:") else LEAD_SIZE[lead]


def build_input(slot, case, values, bits, earlier=()):
    """A cube (or list of cubes) for one input of a command.

    case: {"grid", "times"}; values: integers 0..20 repeated over the array; bits: mask bits."""
    from iris.coords import AuxCoord, CellMethod, DimCoord
    from iris.cube import CubeList
    from vp import cubes as c

    grid = dict(case["grid"])
    if slot.get("sub"):
        grid.update(dy=grid["dy"] * 0.5, dx=grid["dx"] * 0.75, y0=grid["y0"] + 500 * case["off"])
    if slot.get("latlon"):
        grid.update(kind="latlon", dy=2.0, dx=2.0, y0=25 + 2.0 * case["off"], x0=-4.0)
    t = dict(case["times"])
    t["frt"] += 3600 * slot.get("frt", 0)
    t["fp"] += 3600 * (slot.get("fp", 0) - slot.get("frt", 0)) + 43200
    t["period"] = 3600 * slot["period"] if slot.get("period") else 3600 * 6 if case.get("per") else None

    def array(shape):
        n = int(np.prod(shape))
        v = np.array([values[(i * 3 + i // 7) % len(values)] for i in range(n)], float).reshape(shape)
        if slot.get("whole"):
            v = slot["lo"] + np.floor(v / 21.0 * (slot["hi"] - slot["lo"] + 1))
        else:
            v = slot["lo"] + (slot["hi"] - slot["lo"]) * v / 20.0
        v = v.astype(np.float32)
        if slot.get("mask") and any(bits):
            m = np.array([bits[i % len(bits)] for i in range(n)], bool).reshape(shape)
            if not m.all():
                v = np.ma.MaskedArray(v, m)
        return v

    if slot.get("build"):
        return slot["build"](case, array, t, values, bits)
    yx = c.yx_coords(grid)
    scalars = [] if slot.get("static") else list(c.time_coords(t))
    if slot.get("height"):
        from iris.coords import AuxCoord

        scalars.append(AuxCoord(np.float32(slot["height"]), standard_name="height", units="m"))
    attrs = dict(c.ATTRS)
    if slot.get("model") or case["off"]:
        attrs.update(mosg__model_configuration=slot.get("model", "uk_ens"), mosg__model_run="uk_ens:20171110T0000Z:1.000")
    if slot.get("coefficients"):
        out = CubeList()
        for axis, name in (("y", "smoothing_coefficient_y"), ("x", "smoothing_coefficient_x")):
            dims = []
            for crd, a in zip(yx, "yx"):
                if a == axis:
                    p = (crd.points[1:] + crd.points[:-1]) / 2
                    crd = DimCoord(p.astype(np.float32), standard_name=crd.standard_name, units=crd.units, coord_system=crd.coord_system)
                else:
                    crd = crd.copy()
                    crd.bounds = None
                dims.append(crd)
            out.append(c.new_cube(array([len(d.points) for d in dims]), name, "1", dims, scalars, attrs))
        return out
    leads = []
    for lead in slot["leads"]:
        if lead == "r":
            leads.append(c.realization_coord(np.arange(3)))
        elif lead == "p":
            leads.append(c.percentile_coord([10, 50, 95]))
        elif lead == "h":
            leads.append(DimCoord(np.array(HEIGHTS, np.float32), standard_name="height", units="m"))
        elif lead == "l":
            lname, lunits, lpts = slot["levels"]
            leads.append(DimCoord(np.array(lpts, np.float32), units=lunits,
                                  **{"standard_name" if lname in ("height", "air_pressure") else "long_name": lname},
                                  attributes={"positive": "down" if "pressure" in lname else "up"}))
        elif lead == "T":
            leads.append(c.threshold_coord(slot["thr"][2], slot["thr"][0], slot["thr"][1], slot["thr"][3]))
        elif lead == "z":
            leads.append(DimCoord(np.array([25, 75], np.float32), long_name="topographic_zone", units="m",
                                  bounds=np.array([[0, 50], [50, 100]], np.float32)))
        else:
            base = slot["name"].split("probability_of_")[1].split("_above")[0]
            leads.append(c.threshold_coord([float(x) for x in lead[2:].split(",")], base, "K"))
    data = array([len(x.points) for x in leads] + [len(x.points) for x in yx])
    if slot.get("falling"):
        data = -np.sort(-data, axis=0)
    if slot.get("rising"):
        data = np.sort(data, axis=0)
    if "maxof" in slot:
        data = np.max(earlier[slot["maxof"]].data, axis=0)
    if slot.get("whole") and slot["name"].endswith("mask"):
        data = data.astype(np.int8 if not slot["leads"] else np.float32)
    cube = c.new_cube(data, slot["name"], slot["units"], leads + yx, scalars, attrs)
    if slot.get("cm"):
        cube.add_cell_method(CellMethod(slot["cm"], coords="time"))
    _ = AuxCoord
    return cube


def tidy(name, chosen, draw, g, case):
    """Usually make the chosen options go together (left alone one time in six)."""
    if name.startswith("generate-realizations"):
        chosen.setdefault("random-seed", 0)       # without a seed ties are broken at random
    if draw(g.integers(0, 5)) == 0:
        return chosen

    def drop(*keys):
        for k in keys:
            chosen.pop(k, None)

    spec = COMMANDS[name]["options"]
    name = name.split("#")[0]
    if spec is BLEND or "weighting-method" in spec:
        method = spec["weighting-method"]["alts"][chosen["weighting-method"]][0] if "weighting-method" in chosen else "linear"
        chosen["coordinate"] = chosen.get("coordinate", 0)
        model = chosen["coordinate"] in (1, 2)
        if model or method == "dict":
            case["given"][2] = 0
            chosen.setdefault("cycletime", 0)
        if model or method == "dict" or "record-run-attr" in chosen:
            chosen["model-id-attr"] = 0
        if method == "linear":
            drop("cval", "weighting-config")
            chosen.setdefault("y0val", draw(g.integers(0, 2)))
            chosen.setdefault("ynval", draw(g.integers(0, 1)))
        elif method == "nonlinear":
            drop("y0val", "ynval", "weighting-config")
            chosen.setdefault("cval", 0)
        else:
            drop("y0val", "ynval", "cval")
            chosen["weighting-config"] = 0
            chosen["coordinate"] = max(1, chosen["coordinate"])
        if not model and method != "dict":
            drop("record-run-attr")
        if "new-name" in spec:
            chosen.setdefault("new-name", 0)
    elif name == "clip":
        chosen.setdefault(draw(g.sampled(["min-value", "max-value"])), draw(g.integers(0, 1)))
    elif name == "extract":
        chosen["constraints"] = draw(g.sampled([0, 1, 1, 4]))
        if chosen["constraints"] == 4:
            chosen["units"] = 1
        else:
            chosen.pop("units", None)
    elif name == "between-thresholds":
        ranges = chosen["threshold-ranges"] = draw(g.integers(0, 2))
        if ranges == 2:
            chosen["threshold-units"] = 1
        else:
            chosen.pop("threshold-units", None)
    elif name == "generate-realizations":
        drop("ignore-ecc-bounds-exceedance")
        chosen["skip-ecc-bounds"] = 0
        chosen.setdefault("realizations-count", draw(g.integers(0, 1)))
    elif name == "temporal-interpolate":
        if "times" in chosen:
            drop("interval-in-mins")
        else:
            chosen["interval-in-mins"] = draw(g.sampled([0, 0, 1, 2]))
        keep = draw(g.sampled(["accumulation", "max", "min", None]))
        drop(*[k for k in ("accumulation", "max", "min") if k != keep])
        case["per"] = int(any(k in chosen for k in ("accumulation", "max", "min")))
    elif name == "nbhood":
        if chosen.get("neighbourhood-output") == 3:
            drop("degrees-as-complex", "weighted-mode", "area-sum")
            chosen["neighbourhood-shape"] = 0
        else:
            if "weighted-mode" in chosen:
                chosen["neighbourhood-shape"] = 0
                drop("area-sum")
            drop("percentiles")
        chosen["radii"] = chosen.get("radii", 0)
        if chosen["radii"] == 2:
            chosen["lead-times"] = 0
        else:
            drop("lead-times")
        if draw(g.integers(0, 2)):
            drop("degrees-as-complex")
    elif "lead-times" in spec:
        chosen["radii"] = max(chosen["radii"], 0)
        if chosen["radii"] == 2:
            chosen["lead-times"] = 0
        else:
            drop("lead-times")
    elif name == "enforce-consistent-forecasts":
        both = draw(g.integers(0, 2))
        if both:
            chosen.update({"additive-amount": 2, "multiplicative-amount": 1, "comparison-operator": 1})
        else:
            for k in ("additive-amount", "multiplicative-amount", "comparison-operator"):
                n = draw(g.integers(0, 2))
                if n and len(spec[k]["alts"]) > n:
                    chosen[k] = n - 1
                else:
                    chosen.pop(k, None)
        chosen["ref-name"] = max(chosen["ref-name"], 0)
    elif name == "standardise":
        if chosen.get("new-units") == 1:
            chosen["new-units"] = 0
    elif name == "temp-lapse-rate":
        for k, n in (("max-height-diff", 1), ("nbhood-radius", 1), ("max-lapse-rate", 0), ("min-lapse-rate", 0)):
            if chosen.get(k, 0) > n:
                chosen[k] = n
        if draw(g.integers(0, 3)):
            drop("dry-adiabatic")
            case["given"] = [1, 1, 1]
    elif name == "threshold":
        if "threshold-config" in chosen:
            drop("threshold-values", "fuzzy-factor")
        else:
            chosen.setdefault("threshold-values", draw(g.integers(0, 2)))
        if draw(g.integers(0, 1)):
            drop("collapse-coord")
        if case["given"][1]:
            chosen.setdefault("vicinity", draw(g.integers(0, 1)))
    elif name == "combine":
        if chosen.get("minimum-realizations") == 1:
            drop("minimum-realizations")
        if draw(g.booleans()):
            drop("cell-method-coordinate")
    elif name == "blend-cycles-and-realizations":
        chosen["cycletime"] = 0
    elif name == "apply-mask":
        chosen["mask-name"] = 0
    elif name == "regrid":
        case["given"][2] = draw(g.integers(0, 1))
        if case["given"][2]:
            chosen["regrid-mode"] = 3
        else:
            drop("regrid-mode")
            if draw(g.booleans()):
                chosen["regrid-mode"] = 0
    elif name == "blend-adjacent-points":
        case["times"]["fp"] = 0
        chosen["coordinate"] = 0
        if draw(g.integers(0, 2)):
            chosen.update({"central-point": draw(g.integers(0, 2)), "units": 0, "width": draw(g.integers(0, 1))})
        else:
            chosen.update({"central-point": 3, "units": 1, "width": 2})
    elif name == "relabel-to-period":
        chosen.setdefault("period", draw(g.integers(0, 1)))
    elif name == "neighbour-finding":
        if "site-coordinate-system" not in chosen:
            chosen.pop("site-coordinate-options", None)
        if "all-methods" in chosen and draw(g.integers(0, 4)):
            chosen.pop("land-constraint", None)
            chosen.pop("similar-altitude", None)
    elif name == "apply-emos-coefficients":
        if draw(g.booleans()):
            chosen.pop("percentiles", None)
    return chosen


from vp import commands2  # noqa: E402,F401  (more commands)
