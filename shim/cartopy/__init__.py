"""Stand-in for cartopy 0.19: only cartopy.crs, on the installed PROJ library."""
__version__ = "0.19.0"
