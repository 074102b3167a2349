from . import netcdf, pp  # noqa: F401
