import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant

T = '''
T = {"frt": 1510286400, "fp": 7200}
def grid(n, m=None, d=2000): return {"kind": "laea", "ny": n, "nx": m or n, "dy": d, "dx": d, "y0": 0, "x0": 0}
'''

plant("between_close_thresholds", "C03", [("improver/between_thresholds.py",
"""                    thresh_coord: lambda t: np.isclose(t.point, t_range[1], atol=1e-5)""",
"""                    thresh_coord: lambda t: np.isclose(t.point, t_range[1], rtol=5e-3)""")],
T + '''
from improver.between_thresholds import OccurrenceBetweenThresholds
data = np.stack([np.full((2, 2), v, np.float32) for v in (.9, .6, .5)])
cube = c.new_cube(data, "probability_of_air_temperature_above_threshold", "1",
    [c.threshold_coord([270, 280, 281], "air_temperature", "K")] + c.yx_coords(grid(2)), c.time_coords(T))
res = OccurrenceBetweenThresholds([[270, 281]], "K")(cube)
assert np.allclose(res.data, .4), res.data
''', "an upper bound within half a percent of another threshold of the cube",
"several thresholds are taken for the upper bound: the probability between thresholds is wrong or not produced")

plant("nbhood_percentile_padding", "C05", [("improver/nbhood/nbhood.py",
"""            slice_2d.data, kernel.shape, mode="mean", stat_length=max(kernel.shape) // 2""",
"""            slice_2d.data, kernel.shape, mode="mean", stat_length=max(kernel.shape)""")],
T + '''
from improver.nbhood.nbhood import GeneratePercentilesFromANeighbourhood
data = np.broadcast_to(np.arange(9, dtype=np.float32) ** 2, (9, 9)).copy()
cube = c.new_cube(data, "air_temperature", "K", c.yx_coords(grid(9)), c.time_coords(T))
res = GeneratePercentilesFromANeighbourhood(4000, percentiles=[50])(cube)
# 5 zeros, 3 ones and a four inside, 4 points of the halo with the mean of the edge (0.5)
assert np.allclose(np.squeeze(res.data)[4, 0], .5), res.data
''', "points within a radius of the edge of a field that varies near the edge",
"the halo outside the domain is the mean over a longer stretch than the radius")

plant("integration_end_level", "C09", [("improver/utilities/mathematical_operations.py",
"""                if not direction and lower_bound < end_point:""",
"""                if not direction and lower_bound <= end_point:""")],
T + '''
from iris.coords import DimCoord
from improver.utilities.mathematical_operations import Integration
data = np.ones((4, 2, 2), np.float32)
h = DimCoord(np.array([0, 10, 20, 30], np.float32), standard_name="height", units="m")
cube = c.new_cube(data, "wet_bulb_temperature", "K", [h] + c.yx_coords(grid(2)), c.time_coords(T))
res = Integration("height", end_point=10)(cube)
assert list(res.coord("height").points) in ([10, 20], [20, 10]), res.coord("height").points
''', "integration downwards to an end point that is exactly one of the levels",
"the last layer, which ends exactly at the requested end point, is left out")

plant("probabilities_rounded", "C12", [("improver/ensemble_copula_coupling/ensemble_copula_coupling.py",
"""        prob_slices = np.around(prob_slices, 9)""",
"""        prob_slices = np.around(prob_slices, 2)""")],
T + '''
from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertProbabilitiesToPercentiles
data = np.stack([np.full((2, 2), v, np.float32) for v in (.9, .504, .1)])
cube = c.new_cube(data, "probability_of_air_temperature_above_threshold", "1",
    [c.threshold_coord([270, 280, 290], "air_temperature", "K")] + c.yx_coords(grid(2)), c.time_coords(T))
res = ConvertProbabilitiesToPercentiles()(cube, percentiles=[49.6])
assert np.allclose(res.data, 280, atol=1e-3), res.data
''', "probabilities that are not multiples of one percent",
"percentiles are read off a distribution rounded to whole percent")

plant("ecc_tie_jitter", "C14", [("improver/ensemble_copula_coupling/ensemble_copula_coupling.py",
"""                sorting_index = np.lexsort((random_data, rawfc.data), axis=0)""",
"""                sorting_index = np.argsort(rawfc.data + 1e-7 * random_data, axis=0)""")],
T + '''
from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering
raw = np.array([3, 1, 2, 0, 5, 4], np.float32)[:, None, None] * np.ones((1, 3, 3), np.float32) * 1e-9
cal = np.arange(6, dtype=np.float32)[:, None, None] * np.ones((1, 3, 3), np.float32) * 1e-8
yx = c.yx_coords(grid(3))
rawc = c.new_cube(raw, "lwe_precipitation_rate", "m s-1", [c.realization_coord(range(6))] + yx, c.time_coords(T))
calc = c.new_cube(cal, "lwe_precipitation_rate", "m s-1", [c.percentile_coord([100 * k / 7 for k in range(1, 7)])] + yx, c.time_coords(T))
res = EnsembleReordering()(calc, rawc, random_seed=0)
assert np.array_equal(np.argsort(res.data, 0), np.argsort(raw, 0)), res.data
''', "raw forecasts whose differences are tiny in their units, such as precipitation rates in m s-1",
"distinct raw values are ordered at random as though they were tied")

plant("spatial_weights_order", "C15", [("improver/blending/spatial_weights.py",
"""        if original_dim_coords == coords_to_slice_over:
            return cube_to_collapse""",
"""        if set(original_dim_coords) == set(coords_to_slice_over):
            return cube_to_collapse""")],
T + '''
from iris.coords import DimCoord
import iris
from improver.blending.spatial_weights import SpatiallyVaryingWeightsFromMask
g = grid(3)
model = DimCoord(np.arange(3, dtype=np.int32), long_name="model_id", units="1")
data = np.ma.masked_array(np.ones((3, 3, 3), np.float32), mask=np.zeros((3, 3, 3), bool))
data[0, :, 0] = np.ma.masked
cube = c.new_cube(data, "air_temperature", "K", [model] + c.yx_coords(g), c.time_coords(T))
w = iris.cube.Cube(np.array([.2, .3, .5], np.float32), long_name="weights", units="1", dim_coords_and_dims=[(model.copy(), 0)])
want = SpatiallyVaryingWeightsFromMask("model_id", fuzzy_length=2)(cube.copy(), w)
cube.transpose([1, 2, 0])
got = SpatiallyVaryingWeightsFromMask("model_id", fuzzy_length=2)(cube, w)
got.transpose([got.coord_dims(n)[0] for n in ("model_id", "projection_y_coordinate", "projection_x_coordinate")])
assert np.allclose(got.data, want.data), (got.data, want.data)
''', "a masked cube whose blend dimension does not lead",
"the weights are normalised along the wrong dimension")

plant("blend_normalise_any", "C16", [("improver/blending/weighted_blend.py",
"""        if not (np.isclose(sum_of_non_zero_weights, 1)).all():""",
"""        if not (np.isclose(sum_of_non_zero_weights, 1)).any():""")],
T + '''
import iris
from iris.coords import DimCoord
from improver.blending.weighted_blend import WeightedBlendAcrossWholeDimension
yx = c.yx_coords(grid(2))
model = DimCoord(np.arange(2, dtype=np.int32), long_name="model_id", units="1")
data = np.stack([np.stack([np.full((2, 2), a + b, np.float32) for b in (0, 10, 20)]) for a in (0, 2)])
cube = c.new_cube(data, "air_temperature", "K", [model, c.percentile_coord([25, 50, 75])] + yx, c.time_coords(T))
w = np.full((2, 2, 2), .5, np.float32)
part = w.copy(); part[:, 0, 0] = .25
def wc(d): return c.new_cube(d, "weights", "1", [model.copy()] + c.yx_coords(grid(2)))
a = WeightedBlendAcrossWholeDimension("model_id")(cube.copy(), wc(w))
b = WeightedBlendAcrossWholeDimension("model_id")(cube.copy(), wc(part))
assert np.allclose(a.data, b.data), (a.data, b.data)
''', "weights that add up to one at some points and not at others",
"percentiles are blended with weights that do not sum to one")

plant("blend_small_weights", "C17", [("improver/blending/calculate_weights_and_blend.py",
"""            if np.sum(wslice.data) == 0:""",
"""            if np.allclose(wslice.data, 0, atol=5e-3):""")],
T + '''
import iris
from improver.blending.calculate_weights_and_blend import WeightAndBlend
cubes = iris.cube.CubeList()
for i in range(4):
    t = {"frt": 1510286400 + 3600 * i, "fp": 18000 - 3600 * i}
    cubes.append(c.new_cube(np.full((3, 3), 1000.0 ** (3 - i), np.float32), "air_temperature", "K", c.yx_coords(grid(3)), c.time_coords(t)))
res = WeightAndBlend("forecast_reference_time", "nonlinear", cval=.1, inverse_ordering=True)(cubes, cycletime="20171110T0700Z")
w = np.array([.001, .01, .1, 1]); w /= w.sum()
want = (w * np.array([1e9, 1e6, 1e3, 1])).sum()
assert np.allclose(res.data, want, rtol=1e-4), (res.data, want)
''', "an input whose weight is positive but below half a percent",
"inputs with small weights are dropped from the blend")

plant("reliability_mask_union", "C18", [("improver/calibration/reliability_calibration.py",
"""            mask = threshold_reliability.mask & table.mask""",
"""            mask = threshold_reliability.mask | table.mask""")],
T + '''
import iris
from improver.calibration.reliability_calibration import ConstructReliabilityCalibrationTables
fc, tr = [], []
from iris.cube import CubeList
fs, ts = CubeList(), CubeList()
for d in range(2):
    t = {"frt": 1510286400 + 86400 * d, "fp": 7200}
    t0 = {"frt": 1510286400 + 86400 * d + 7200, "fp": 0}
    thr = [c.threshold_coord([280, 290], "air_temperature", "K")]
    fs.append(c.new_cube(np.full((2, 3, 3), .5, np.float32), "probability_of_air_temperature_above_threshold", "1", thr + c.yx_coords(grid(3)), c.time_coords(t)))
    m = np.zeros((2, 3, 3), bool); m[:, 0, d] = True
    ts.append(c.new_cube(np.ma.masked_array(np.ones((2, 3, 3), np.float32), m), "probability_of_air_temperature_above_threshold", "1", thr + c.yx_coords(grid(3)), c.time_coords(t0)))
f, tt = fs.merge_cube(), ts.merge_cube()
res = ConstructReliabilityCalibrationTables(n_probability_bins=5)(f, tt)
assert not np.ma.getmaskarray(res.data).any(), "masked"
''', "a truth mask that differs between validity times",
"points that are masked at any time lose all their counts")

plant("dz_nearest_lead_time", "C20", [("improver/calibration/dz_rescaling.py",
"""            fp_index = np.argmax(fp_diff >= 0)""",
"""            fp_index = np.argmin(np.abs(fp_diff))""")],
T + '''
import iris
from iris.coords import AuxCoord, DimCoord
import sys, types, datetime
try:
    import pandas
except ImportError:
    pandas = sys.modules["pandas"] = types.ModuleType("pandas")
    pandas.Timedelta = lambda n, unit: datetime.timedelta(**{unit: int(n)})
from improver.calibration.dz_rescaling import ApplyDzRescaling
fp = DimCoord(np.array([3600, 7200], np.int32), standard_name="forecast_period", units="s")
hour = AuxCoord(np.array([4 * 3600], np.int32), long_name="forecast_reference_time_hour", units="s")
forecast = c.spot_cube(np.ones((2, 3), np.float32), "wind_speed", "m s-1", 3, lead=[c.percentile_coord([25, 75])],
    scalars=c.time_coords({"frt": 1510286400, "fp": 3660}))
dz = c.spot_cube(np.stack([np.full(3, 2., np.float32), np.full(3, 5., np.float32)]), "scaled_vertical_displacement", "1", 3, lead=[fp], scalars=[hour])
res = ApplyDzRescaling()(forecast, dz)
assert np.allclose(res.data, 5), res.data
''', "a lead time just beyond one of the lead times of the scaling",
"the nearest lead time is used in place of the next longer one")

plant("site_altitude_zero", "C22", [("improver/spotdata/neighbour_finding.py",
"""            [site.get(self.site_altitude, None) for site in sites]""",
"""            [site.get(self.site_altitude) or None for site in sites]""")],
T + '''
from improver.spotdata.neighbour_finding import NeighbourSelection
orog = np.full((5, 5), 50, np.float32); orog[2, 3] = 1
land = np.ones((5, 5), np.float32)
g = dict(grid(5), bounds=True)
o = c.new_cube(orog, "surface_altitude", "m", c.yx_coords(g))
l = c.new_cube(land, "land_binary_mask", "1", c.yx_coords(g))
sites = [{"altitude": 0.0, "latitude": 54.936, "longitude": -2.444, "wmo_id": 1, "x": 4000., "y": 4000.}]
import cartopy.crs as ccrs
crs = o.coord_system().as_cartopy_crs()
res = NeighbourSelection(land_constraint=False, minimum_dz=True, search_radius=5000, node_limit=20, site_coordinate_system=crs, site_x_coordinate="x", site_y_coordinate="y")(sites, o, l)
v = res.data[0, :, 0]
assert abs(v[2] - (0 - 1)) < 1e-3, v
''', "a site exactly at sea level (altitude 0)",
"an altitude of zero is taken as missing and replaced by the orography")

plant("wet_bulb_negative_steps", "C27", [("improver/psychrometric_calculations/wet_bulb_temperature.py",
"""            update_to_update = np.abs(delta_wbt) > self.precision""",
"""            update_to_update = -delta_wbt > self.precision""")],
T + '''
from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperature
from iris.cube import CubeList
def f(v, n, u): return c.new_cube(np.full((2, 2), v, np.float32), n, u, c.yx_coords(grid(2)), c.time_coords(T))
res = WetBulbTemperature()(CubeList([f(280, "air_temperature", "K"), f(1.1, "relative_humidity", "1"), f(1e5, "air_pressure", "Pa")]))
assert (res.data > 280.1).all(), res.data
''', "relative humidities above one",
"the wet bulb temperature of supersaturated air stays at the air temperature")

plant("visibility_above_limit", "C29", [("improver/visibility/visibility_combine_cloud_base.py",
"""        scaling_factors = np.where(
            vis_thresholds > self.first_unscaled_threshold, 1, scaling_factors
        )
        return scaling_factors""", """        return np.maximum(scaling_factors, self.initial_scaling_value)""")],
T + '''
from iris.cube import CubeList
from improver.visibility.visibility_combine_cloud_base import VisibilityCombineCloudBase
yx = c.yx_coords(grid(2))
vis = c.new_cube(np.zeros((2, 2, 2), np.float32), "probability_of_visibility_in_air_below_threshold", "1", [c.threshold_coord([1000, 10000], "visibility_in_air", "m", "below")] + yx, c.time_coords(T))
cb = c.new_cube(np.full((2, 2), .8, np.float32), "probability_of_cloud_base_height_assuming_only_consider_cloud_area_fraction_greater_than_4p5_oktas_below_threshold", "1", c.yx_coords(grid(2)), list(c.time_coords(T)) + [c.threshold_coord([2], "cloud_base_height", "m", "below")])
res = VisibilityCombineCloudBase(0.6, 5000)(CubeList([vis, cb]))
i = res.coord_dims(res.coord(var_name="threshold"))[0]
assert np.allclose(np.take(res.data, 1, i), .8), res.data
''', "visibility thresholds beyond the first unscaled threshold",
"the cloud base probability is scaled down again for large thresholds")

plant("wind_low_confidence_all", "C30", [("improver/wind_calculations/wind_direction.py",
"""        self.wdir_slice_mean.data = np.where(
            where_low_r, improved_values, self.wdir_slice_mean.data
        )""", """        self.wdir_slice_mean.data = np.where(
            self.r_vals_slice.data <= np.max(self.r_vals_slice.data[where_low_r]) + self.r_thresh,
            improved_values,
            self.wdir_slice_mean.data,
        )""")],
T + '''
from improver.wind_calculations.wind_direction import WindDirection
d = np.array([[[0, 0]], [[179.5, 0]]], np.float32)
d[:, 0, 1] = [10, 188.5]
cube = c.new_cube(d, "wind_from_direction", "degrees", [c.realization_coord([0, 1])] + c.yx_coords(grid(1, 2)), c.time_coords(T))
res = WindDirection(backup_method="first_realization")(cube)
assert abs(res.data.ravel()[1] - 10) > 50, res.data
''', "a point just above the confidence limit on a field with another point below it",
"confident mean directions are replaced by the backup")


plant("compare_group_tolerances", "C10", [("improver/utilities/compare.py",
"""            desired_ds.groups[group],
            rtol,
            atol,""", """            desired_ds.groups[group],
            atol,
            rtol,""")], """
import os, tempfile
import netCDF4
from improver.utilities.compare import compare_netcdfs
d = tempfile.TemporaryDirectory()
def make(name, v):
    p = os.path.join(d.name, name)
    ds = netCDF4.Dataset(p, "w")
    g = ds.createGroup("extra")
    g.createDimension("x", 3)
    g.createVariable("a", "f8", ("x",))[:] = v
    ds.close()
    return p
a, b = make("a.nc", [1e3, 2e3, 3e3]), make("b.nc", [1e3, 2e3, 3001.0])
found = []
compare_netcdfs(a, b, rtol=1e-2, atol=0.0, reporter=found.append)
assert not found, found
""", "variables in groups and unequal tolerances",
"differences in groups are judged with the tolerances exchanged", shim=False)

plant("category_reference_time", "C25", [("improver/categorical/decision_tree.py",
"""                reference_time = max([c.coord(coord_name).points[0] for c in cubes])""",
"""                reference_time = [c.coord(coord_name).points[0] for c in cubes][-1]""")],
T + """
from iris.cube import CubeList
from improver.categorical.decision_tree import ApplyDecisionTree
def f(name, frt, v):
    return c.new_cube(np.full((2, 2), v, np.float32), "probability_of_%s_above_threshold" % name, "1",
        c.yx_coords(grid(2)), list(c.time_coords({"frt": 1510286400 + frt, "fp": 7200 - frt})) + [c.threshold_coord([1.0], name, "1")])
def node(name, t, f_):
    return {"if_true": t, "if_false": f_, "if_diagnostic_missing": "if_false", "probability_thresholds": [.5],
        "threshold_condition": ">=", "condition_combination": "", "diagnostic_fields": ["probability_of_%s_above_threshold" % name],
        "diagnostic_thresholds": [[1.0, "1"]], "diagnostic_conditions": ["above"]}
tree = {"meta": {"name": "weather_code"}, "n1": node("aa", "L1", "n2"), "n2": node("bb", "L1", "L2"), "L1": {"leaf": 1}, "L2": {"leaf": 2}}
res = ApplyDecisionTree(tree)(CubeList([f("aa", 3600, 0), f("bb", 0, 0)]))
assert res.coord("forecast_reference_time").points[0] == 1510286400 + 3600, res.coord("forecast_reference_time")
""", "inputs from different cycles of which the last is not the latest",
"the category field is given an earlier reference time and a longer lead time")

plant("lapse_rate_deep_valley", "C23", [("improver/lapse_rate.py",
"""    condition2 = orog_diff < -max_orog_diff_limit""",
"""    condition2 = orog_diff <= -2 * max_orog_diff_limit""")], """
from improver.lapse_rate import compute_lapse_rate_adjustment
res = compute_lapse_rate_adjustment(np.array([0.01, 0.01], np.float32), np.array([-80, 80], np.float32))
want = .01 * 50 + 30 * -0.0065
assert np.allclose(res, [-want, want]), res
""", "a site between one and two limits below the model orography",
"the local lapse rate is extrapolated beyond the limit", shim=True)

plant("regrid_leftover_corners", "C21", [("improver/regrid/bilinear.py",
"""            excluded_indexes = np.concatenate((excluded_indexes, excluded_index))""",
"""            excluded_indexes = excluded_index""")],
T + """
from improver.regrid.landsea import RegridLandSea
ll = lambda n, d, o: {"kind": "latlon", "ny": n, "nx": n, "dy": d, "dx": d, "y0": o, "x0": o}
rng = np.random.RandomState(0)
worst = 0
for k in range(5):
    land = (rng.rand(8, 8) < .6).astype(np.float32)
    src, dst = ll(8, 1.0, 0.0), ll(25, .25, .5)
    field = c.new_cube(land.copy(), "air_temperature", "K", c.yx_coords(src), c.time_coords(T))
    mask = c.new_cube(land.astype(np.int8), "land_binary_mask", "1", c.yx_coords(src))
    target = c.new_cube(np.ones((25, 25), np.int8), "land_binary_mask", "1", c.yx_coords(dst))
    res = RegridLandSea(regrid_mode="bilinear-with-mask-2", landmask=mask, landmask_vicinity=500000)(field, target)
    worst = max(worst, float(np.abs(res.data - 1).max()))
assert worst < 1e-3, worst
""", "target points outside the triangle for more than one mismatched corner",
"target points left over from earlier corners keep the weight of a point of the wrong surface type")
