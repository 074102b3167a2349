import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant

T = '''
T = {"frt": 1510286400, "fp": 7200}
def grid(n, m=None, d=2000): return {"kind": "laea", "ny": n, "nx": m or n, "dy": d, "dx": d, "y0": 0, "x0": 0}
'''

plant("daynight_near_equinox", "C26", [("improver/utilities/solar.py",
"""        if dec > 0.0:
            index = np.where(lats_on_lon >= terminator_on_lon)""",
"""        if dec >= 0.5:
            index = np.where(lats_on_lon >= terminator_on_lon)""")], '''
import datetime
from improver.utilities.solar import DayNightMask
at = int(datetime.datetime(2018, 3, 24, 12, tzinfo=datetime.timezone.utc).timestamp())
cube = c.new_cube(np.zeros((3, 2), np.float32), "air_temperature", "K",
    c.yx_coords({"kind": "latlon", "ny": 3, "nx": 2, "dy": 30, "dx": 10, "y0": -30, "x0": -5}),
    c.time_coords({"frt": at, "fp": 0}))
res = DayNightMask()(cube)
assert np.all(res.data == 1), res.data
''', "a date within a day or two after the spring equinox",
"day and night are exchanged everywhere while the declination is slightly positive")

plant("synthetic_long_period", "C44", [("improver/synthetic_data/generate_metadata.py",
"""    lower_bound = time - timedelta(minutes=time_period)""",
"""    lower_bound = time - timedelta(seconds=timedelta(minutes=time_period).seconds)""")], '''
from datetime import datetime
from improver.synthetic_data.generate_metadata import generate_metadata
cube = generate_metadata({"title": "a", "institution": "b", "source": "c"}, time_period=1500, npoints=3,
    time=datetime(2017, 11, 10, 12))
low, high = cube.coord("time").bounds[0]
assert high - low == 1500 * 60, cube.coord("time")
''', "a period of a day or more",
"whole days are lost from the period between the time bounds")

plant("table_one_missing", "C42", [("improver/utilities/extract_from_table.py",
"""        nan_condition = np.logical_or(np.isnan(row_data), np.isnan(columns_data))""",
"""        nan_condition = np.isnan(row_data)""")], '''
import types
class Axis(list):
    def astype(self, t): return Axis(map(t, self))
    def __array__(self, *a): return np.array(list(self))
class DataFrame:
    @classmethod
    def from_dict(cls, data):
        self = cls()
        self.columns, self.index = Axis(data), Axis(next(iter(data.values())))
        self.values = np.array([[data[x][y] for x in self.columns] for y in self.index])
        return self
    def reindex(self, labels, axis):
        assert labels == (self.columns if axis else self.index)
        return self
    def to_numpy(self): return self.values
try:
    import pandas
except ImportError:
    sys.modules["pandas"] = types.SimpleNamespace(DataFrame=DataFrame)
T = {"frt": 1510286400, "fp": 7200}
from improver.utilities.extract_from_table import ExtractValueFromTable
def cube(name, v): return c.new_cube(np.array(v, np.float32), name, "1",
    c.yx_coords({"kind": "laea", "ny": 2, "nx": 2, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}), c.time_coords(T))
table = {"data": {"0": {"0": 1.0, "1": 2.0}, "1": {"0": 3.0, "1": 4.0}}, "metadata": {"units": "m"}}
res = ExtractValueFromTable(row_name="rows")(cube("rows", [[0, 1], [0, 1]]), cube("cols", [[0, 0], [1, np.nan]]), table=table)
assert np.array_equal(res.data, [[1, 2], [3, np.nan]], equal_nan=True), res.data
''', "a missing value in the cube of columns where that of rows has a value",
"a value of the table is given for points whose column is missing")

plant("interpreter_less_or_equal", "C43", [("improver/developer_tools/metadata_interpreter.py",
"""        elif self.relative_to_threshold in ("less_than", "less_than_or_equal_to"):""",
"""        elif self.relative_to_threshold == "less_than":""")], T + '''
from improver.developer_tools.metadata_interpreter import MOMetadataInterpreter
cube = c.new_cube(np.zeros((2, 2, 2), np.float32), "probability_of_air_temperature_below_threshold", "1",
    [c.threshold_coord([270, 280], "air_temperature", "K", "less_than_or_equal_to")] + c.yx_coords(grid(2)), c.time_coords(T),
    {"title": "MOGREPS-UK Model Forecast on UK 2 km Standard Grid", "source": "IMPROVER", "institution": "Met Office",
     "mosg__model_configuration": "uk_ens"})
MOMetadataInterpreter().run(cube)
''', "probabilities of being less than or equal to a threshold",
"compliant probabilities are refused as having an unknown relation to their threshold")

plant("extract_close_values", "C37", [("improver/utilities/cube_extraction.py",
"""        return lambda cell: any(np.isclose(cell.point, value))""",
"""        return lambda cell: any(np.isclose(cell.point, value, rtol=1e-3))""")], T + '''
from improver.utilities.cube_extraction import ExtractSubCube
cube = c.new_cube(np.zeros((3, 2, 2), np.float32), "probability_of_visibility_in_air_above_threshold", "1",
    [c.threshold_coord([5000.0, 5002.0, 5010.0], "visibility_in_air", "m")] + c.yx_coords(grid(2)), c.time_coords(T))
res = ExtractSubCube(["visibility_in_air=[5000.0, 5010.0]"])(cube)
assert list(res.coord("visibility_in_air").points) == [5000.0, 5010.0], res.coord("visibility_in_air")
''', "points of the coordinate within a thousandth of the value asked for",
"neighbouring points are extracted too")

plant("zero_spread_points", "C13", [("improver/ensemble_copula_coupling/ensemble_copula_coupling.py",
"""                result[index, nan_index] = location_data[nan_index]""",
"""                result[index, nan_index] = location_data[nan_index[0]]""")], T + '''
from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertLocationAndScaleParametersToPercentiles
real = c.new_cube(np.zeros((2, 2, 2), np.float32), "air_temperature", "K",
    [c.realization_coord([0, 1])] + c.yx_coords(grid(2)), c.time_coords(T))
def cube(name, v): return c.new_cube(np.array(v, np.float32), name, "K", c.yx_coords(grid(2)), c.time_coords(T))
loc, scale = cube("location_parameter", [[1, 2], [3, 4]]), cube("scale_parameter", [[0, 1], [0, 1]])
res = ConvertLocationAndScaleParametersToPercentiles()(loc, scale, real, percentiles=[50])
assert np.allclose(res.data, [[1, 2], [3, 4]]), res.data
''', "several points of zero spread with different means",
"all points of zero spread are given the mean of the first of them")

plant("combined_bounds_order", "C34", [("improver/utilities/cube_manipulation.py",
"""            new_top_bound = np.max(bounds)
        result_coord""",
"""            new_top_bound = bounds[-1].max()
        result_coord""")], '''
from improver.cube_combiner import CubeCombiner
def cube(fp):
    return c.new_cube(np.ones((2, 2), np.float32), "rainfall_amount", "m",
        c.yx_coords({"kind": "laea", "ny": 2, "nx": 2, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}),
        c.time_coords({"frt": 1510286400, "fp": fp, "period": 3600}))
res = CubeCombiner("+")([cube(10800), cube(7200)], "rainfall_amount")
assert list(res.coord("time").bounds[0]) == [1510286400 + 3600, 1510286400 + 10800], res.coord("time")
assert res.coord("time").points[0] == 1510286400 + 10800, res.coord("time")
''', "inputs with bounds that are not given in order of time",
"the result's time coordinates end with the last input given, not the latest")

plant("topographic_band_edge", "C32", [("improver/generate_ancillaries/generate_topographic_zone_weights.py",
"""                (orography.data > band[0]) & (orography.data <= band[1])""",
"""                (orography.data > band[0]) & (orography.data < band[1])""")], T + '''
from improver.generate_ancillaries.generate_topographic_zone_weights import GenerateTopographicZoneWeights
oro = c.new_cube(np.array([[10, 50], [60, 90]], np.float32), "surface_altitude", "m", c.yx_coords(grid(2)))
res = GenerateTopographicZoneWeights()(oro, {"bounds": [[0, 50], [50, 100]], "units": "m"})
assert np.allclose(res.data.sum(axis=0), 1), res.data
''', "orography that is exactly the upper edge of a band",
"such points have no weight in any band")

plant("reference_time_bounds", "C19", [("improver/calibration/utilities.py",
"""        frt_bounds_max = max(frt_bounds_max, forecast_reference_time.bounds.max())""",
"""        frt_bounds_max = max(frt_bounds_max, forecast_reference_time.bounds.min())""")], '''
from iris.coords import DimCoord
from improver.calibration.utilities import create_unified_frt_coord
crd = DimCoord(np.array([1000, 2000], np.int64), standard_name="forecast_reference_time",
    bounds=np.array([[500, 1500], [1500, 2500]], np.int64), units="seconds since 1970-01-01 00:00:00")
res = create_unified_frt_coord(crd)
assert list(res.bounds[0]) == [500, 2500], res
''', "reference times that have bounds reaching beyond their points",
"the unified reference time's bounds do not cover those of its sources")

plant("accumulation_first_period", "C24", [("improver/nowcasting/accumulation.py",
"""                fp for fp in self.forecast_periods if fp >= self.accumulation_period""",
"""                fp for fp in self.forecast_periods if fp > self.accumulation_period""")], '''
from iris.cube import CubeList
from improver.nowcasting.accumulation import Accumulation
g = {"kind": "laea", "ny": 2, "nx": 2, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0}
cubes = CubeList([c.new_cube(np.full((2, 2), 1e-6, np.float32), "lwe_precipitation_rate", "m s-1", c.yx_coords(g),
    c.time_coords({"frt": 1510286400, "fp": fp})) for fp in (0, 300, 600, 900)])
res = Accumulation(accumulation_period=600)(cubes)
assert [int(x.coord("forecast_period").points[0]) for x in res] == [600, 900], res
''', "accumulation periods longer than the interval, so that some lead times are left out",
"the first complete accumulation is left out as well")

plant("wind_other_direction_names", "C30", [("improver/wind_calculations/wind_components.py",
"""        if "wind_from_direction" in angle.name():""",
"""        if angle.name() == "wind_from_direction":""")], T + '''
from improver.wind_calculations.wind_components import ResolveWindComponents
g = {"kind": "laea", "ny": 4, "nx": 4, "dy": 2000, "dx": 2000, "y0": -3000, "x0": -3000}
def cube(name, v, u): return c.new_cube(np.full((4, 4), v, np.float32), name, u, c.yx_coords(g), c.time_coords(T))
a = ResolveWindComponents()(cube("wind_speed", 10, "m s-1"), cube("wind_from_direction", 90, "degrees"))
b = ResolveWindComponents()(cube("wind_speed_of_gust", 10, "m s-1"), cube("wind_from_direction_of_gust", 90, "degrees"))
assert np.allclose(a[0].data, b[0].data, atol=1e-3), (a[0].data, b[0].data)
''', "a direction whose name has more than wind_from_direction",
"winds from such a direction are taken to blow towards it")
