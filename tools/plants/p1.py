import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant

T = '''
T = {"frt": 1510286400, "fp": 7200}
def grid(n, m=None, d=2000): return {"kind": "laea", "ny": n, "nx": m or n, "dy": d, "dx": d, "y0": 0, "x0": 0}
'''

plant("thr_negative_fuzzy", "C01", [("improver/threshold.py",
"""            if thr < 0:
                lower_thr, upper_thr = upper_thr, lower_thr
            fuzzy_bounds.append((lower_thr, upper_thr))""",
"""            if self.thresholds[0] < 0:
                lower_thr, upper_thr = upper_thr, lower_thr
            fuzzy_bounds.append((lower_thr, upper_thr))""")],
T + '''
from improver.threshold import Threshold
data = np.array([[-3, -2, -1], [1, 2, 3]], np.float32)
cube = c.new_cube(data, "air_temperature", "K", c.yx_coords(grid(2, 3)), c.time_coords(T))
res = Threshold(threshold_values=[-2.0, 2.0], fuzzy_factor=0.5)(cube)
want = np.array([[[0, .5, 1], [1, 1, 1]], [[0, 0, 0], [0, .5, 1]]])
assert np.allclose(res.data, want), res.data
''', "thresholds of both signs in one request with a fuzzy factor", "fuzzy bounds of later thresholds are reversed, so probabilities are wrong or refused")

plant("vicinity_landmask_second_radius", "C02", [("improver/utilities/spatial.py",
"""            max_data.mask = cube.data.mask
""", """            max_data.mask = np.ma.getmaskarray(cube.data)[0] if cube.ndim > 2 else cube.data.mask
""")] if False else [("improver/threshold.py",
"""                    maxes[yxindex] = slice_max
""", """                    maxes[yxindex] = slice_max
                    if landmask is None:
                        truth_value[yxindex] = slice_max
""")],
T + '''
from improver.threshold import Threshold
data = np.zeros((2, 7, 7), np.float32); data[0, 3, 3] = 1
cube = c.new_cube(data, "air_temperature", "K", [c.realization_coord([0, 1])] + c.yx_coords(grid(7)), c.time_coords(T))
res = Threshold(threshold_values=0.5, vicinity=[2000, 4000])(cube)
d = [x.name() for x in res.coords(dim_coords=True)]
i = res.coord_dims("radius_of_vicinity")[0]; j = res.coord_dims("realization")[0]
n = np.take(np.take(res.data, 1, i), 0, j if j < i else j - 1).sum()
assert n == 25, n
''', "several vicinity radii on data with a leading dimension", "the second radius starts from the maxima of the first, so its vicinity is too large")

plant("between_last_slice", "C03", [("improver/expected_value.py",
"""            threshold_coord_index, *np.where(""", "")] if False else [("improver/between_thresholds.py",
"""            if (
                "below" in self.thresh_coord.name()""", "")] if False else [],
"", "", "") if False else None

plant("nbhood_trim_halo", "C04", [("improver/nbhood/nbhood.py",
"""                _xstop = min(data_shape[1], _xstop + half_nb_size)""",
"""                _xstop = min(data_shape[0], _xstop + half_nb_size)""")],
T + '''
from improver.nbhood.nbhood import NeighbourhoodProcessing
data = np.zeros((4, 8), np.float32); data[1, 5] = 1
cube = c.new_cube(data, "cloud_area_fraction", "1", c.yx_coords(grid(4, 8)), c.time_coords(T))
res = NeighbourhoodProcessing("square", 2000)(cube)
assert abs(res.data[1, 5] - 1 / 9.) < 1e-5 and abs(res.data[1, 6] - 1 / 9.) < 1e-5, res.data
''', "a grid longer in x than in y with its signal beyond the y length", "values near the right of the domain are lost by the background-trimming shortcut")

plant("percentile_nbhood_edge", "C05", [("improver/nbhood/nbhood.py",
"""kernel = circular_kernel(ranges, weighted_mode=False)""", "")] if False else [], "", "", "") if False else None

plant("boxsum_int_overflow", "C06", [("improver/utilities/neighbourhood_tools.py",
"""        data = data.cumsum(-2).cumsum(-1)""",
"""        data = data.cumsum(-2, dtype=data.dtype).cumsum(-1, dtype=data.dtype)""")],
'''
from improver.utilities.neighbourhood_tools import boxsum
data = np.full((40, 40), 2, np.int8)
res = boxsum(data, 13)
assert (res == 2 * 169).all(), res
''', "a small integer type and enough points for the cumulative sums to overflow", "box sums wrap around for small integer types", shim=False)

plant("recursive_filter_iterations", "C07", [("improver/nbhood/recursive_filter.py",
"""        for _ in range(iterations):""", """        for _ in range(min(iterations, 2)):""")],
T + '''
from improver.nbhood.recursive_filter import RecursiveFilter
import inspect
rng = np.random.RandomState(0)
g = grid(5)
cube = c.new_cube(rng.rand(5, 5).astype(np.float32), "wind_speed", "m s-1", c.yx_coords(g), c.time_coords(T))
def coeff(ax):
    ny, nx = (5, 4) if ax == "x" else (4, 5)
    gg = dict(grid(ny, nx)); gg["y0" if ax == "y" else "x0"] = 1000
    return c.new_cube(np.full((ny, nx), 0.3, np.float32), "smoothing_coefficient_" + ax, "1", c.yx_coords(gg))
import iris
def go(n, cube): return RecursiveFilter(iterations=n, edge_width=3)(cube.copy(), iris.cube.CubeList([coeff("x"), coeff("y")]))
three = go(3, cube)
two = go(2, cube)
assert not np.allclose(three.data, two.data), "third iteration has no effect"
''', "three or more iterations", "iterations beyond the second are ignored")
