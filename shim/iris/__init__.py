"""An in-memory stand-in for iris 3.0, written for /verif.

iris cannot be installed in this sandbox.  This package implements, on numpy,
cf_units, cftime, netCDF4 and dask, the part of the iris 3.0 interface that IMPROVER
uses.  Its fidelity is measured by running IMPROVER's own unit tests on it
(see DESIGN.md).  A feature of iris that is missing here raises ShimUnsupported.
"""
import itertools  # noqa: F401

from . import config  # noqa: F401
from ._constraints import AttributeConstraint, Constraint, NameConstraint
from ._unsupported import ShimUnsupported
from . import exceptions, util, coord_systems, coords, cube, analysis, std_names, time
from . import fileformats

__version__ = "3.0.3"
__all__ = ["load", "load_cube", "load_cubes", "load_raw", "save", "Constraint",
           "AttributeConstraint", "NameConstraint"]


class _Future:
    def __setattr__(self, name, value):
        object.__setattr__(self, name, value)


FUTURE = _Future()


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name in ("tests", "plot", "quickplot", "palette", "symbols", "io", "pandas",
                "experimental"):
        import importlib

        try:
            return importlib.import_module("iris." + name)
        except ImportError:
            raise ShimUnsupported("iris." + name)
    raise ShimUnsupported("iris." + name)


def _load_raw(uris, constraints=None, callback=None):
    import glob

    from .cube import CubeList
    from .fileformats.netcdf import load_cubes as nc_load

    if isinstance(uris, (str, bytes)) or hasattr(uris, "__fspath__"):
        uris = [uris]
    cubes = CubeList()
    for uri in uris:
        uri = str(uri)
        files = sorted(glob.glob(uri))
        if not files:
            raise OSError("One or more of the files specified did not exist:\n"
                          "    * \"%s\" didn't match any files" % uri)
        for f in files:
            for cube in nc_load(f):
                if callback is not None:
                    new = callback(cube, None, f)
                    cube = cube if new is None else new
                cubes.append(cube)
    return cubes


def load_raw(uris, constraints=None, callback=None):
    from .cube import CubeList
    from ._constraints import list_of_constraints

    cubes = _load_raw(uris, callback=callback)
    result = CubeList()
    for constraint in list_of_constraints(constraints):
        for cube in cubes:
            sub = constraint.extract(cube)
            if sub is not None:
                result.append(sub)
    return result


def load(uris, constraints=None, callback=None):
    return load_raw(uris, constraints, callback).merge()


def load_cubes(uris, constraints=None, callback=None):
    cubes = load(uris, constraints, callback)
    return cubes


def load_cube(uris, constraint=None, callback=None):
    cubes = load_raw(uris, constraint, callback)
    try:
        return cubes.merge_cube()
    except exceptions.MergeError as err:
        raise exceptions.ConstraintMismatchError(str(err))
    except ValueError:
        raise exceptions.ConstraintMismatchError("no cubes found")


def save(source, target, saver=None, **kwargs):
    from .fileformats import netcdf

    netcdf.save(source, str(target), **kwargs)


def sample_data_path(*args):
    raise ShimUnsupported("sample_data_path")
