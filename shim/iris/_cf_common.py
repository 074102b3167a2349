"""CF identity and metadata shared by cubes and coordinates (iris 3.0 behaviour)."""
import re
from collections import namedtuple
from collections.abc import Iterable, Mapping

import cf_units
import numpy as np

from .std_names import STD_NAMES

CoordMetadata = namedtuple(
    "CoordMetadata",
    ["standard_name", "long_name", "var_name", "units", "attributes",
     "coord_system", "climatological"])
DimCoordMetadata = namedtuple(
    "DimCoordMetadata", list(CoordMetadata._fields) + ["circular"])
_CubeMetadata = namedtuple(
    "CubeMetadata",
    ["standard_name", "long_name", "var_name", "units", "attributes", "cell_methods"])

_TOKEN = re.compile(r"^[a-zA-Z0-9]+[\w.+\-@]*$")


def token(name):
    if name is not None:
        name = name if _TOKEN.match(name) is not None else None
    return name


def hexdigest(item):
    return item


def names_equal(a, b):
    return a == b


def values_equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def attributes_equal(a, b):
    a = a or {}
    b = b or {}
    if set(a.keys()) != set(b.keys()):
        return False
    return all(bool(values_equal(a[k], b[k])) for k in a)


def metadata_equal(m1, m2, ignore=()):
    """Field-wise equality of two metadata tuples over their common fields."""
    for field in m1._fields:
        if field in ignore or field not in m2._fields:
            continue
        v1, v2 = getattr(m1, field), getattr(m2, field)
        if field == "attributes":
            if not attributes_equal(v1, v2):
                return False
        elif v1 != v2:
            return False
    return True


class CubeMetadata(_CubeMetadata):
    __slots__ = ()

    def name(self, default=None, token=False):
        return self.standard_name or self.long_name or self.var_name or default or "unknown"

    def __eq__(self, other):
        if not isinstance(other, _CubeMetadata):
            return NotImplemented
        return metadata_equal(self, other)

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else not result

    __hash__ = None


class LimitedAttributeDict(dict):
    _forbidden_keys = (
        "standard_name", "long_name", "units", "bounds", "axis", "calendar",
        "leap_month", "leap_year", "month_lengths", "coordinates", "grid_mapping",
        "climatology", "cell_methods", "formula_terms", "compress",
        "missing_value", "add_offset", "scale_factor", "_FillValue",
    )

    def __init__(self, *args, **kwargs):
        dict.__init__(self, *args, **kwargs)
        for key in self.keys():
            self._check(key)

    def _check(self, key):
        if key in LimitedAttributeDict._forbidden_keys:
            raise ValueError("%r is not a permitted attribute" % key)

    def __eq__(self, other):
        if not isinstance(other, Mapping):
            return NotImplemented
        return attributes_equal(self, other)

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else not result

    __hash__ = None

    def __setitem__(self, key, value):
        self._check(key)
        dict.__setitem__(self, key, value)

    def update(self, other=(), **kwargs):
        standard = {}
        standard.update(other, **kwargs)
        for key in standard.keys():
            self._check(key)
        dict.update(self, standard)

    def copy(self):
        return LimitedAttributeDict(self)

    def __deepcopy__(self, memo):
        import copy

        return LimitedAttributeDict(
            {k: copy.deepcopy(v, memo) for k, v in self.items()})

    def __reduce__(self):
        return (LimitedAttributeDict, (dict(self),))


_VALID_MODIFIERS = (
    "detection_minimum", "number_of_observations", "standard_error", "status_flag")


def get_valid_standard_name(name):
    if name is not None:
        name_groups = name.split(maxsplit=1)
        if name_groups:
            std_name = name_groups[0]
            valid = std_name in STD_NAMES
            if valid and len(name_groups) == 2:
                valid = name_groups[1] in _VALID_MODIFIERS
            if not valid:
                raise ValueError("{!r} is not a valid standard_name".format(name))
        else:
            raise ValueError("{!r} is not a valid standard_name".format(name))
    return name


class CFVariableMixin:
    _default_name = "unknown"

    def name(self, default=None, token=None):
        def _check(item):
            return item if not token else globals()["token"](item)

        default = self._default_name if default is None else default
        result = (
            _check(self.standard_name)
            or _check(self.long_name)
            or _check(self.var_name)
            or _check(default)
        )
        if token and result is None:
            raise ValueError("Cannot retrieve a valid name token from %r" % self)
        return result

    @property
    def _names(self):
        stash = self.attributes.get("STASH")
        return (self.standard_name, self.long_name, self.var_name,
                str(stash) if stash is not None else None)

    def rename(self, name):
        try:
            self.standard_name = name
            self.long_name = None
        except ValueError:
            self.standard_name = None
            self.long_name = str(name)
        self.var_name = None

    @property
    def standard_name(self):
        return self._standard_name

    @standard_name.setter
    def standard_name(self, name):
        self._standard_name = get_valid_standard_name(name)

    @property
    def long_name(self):
        return self._long_name

    @long_name.setter
    def long_name(self, name):
        self._long_name = name

    @property
    def var_name(self):
        return self._var_name

    @var_name.setter
    def var_name(self, name):
        if name is not None:
            result = token(name)
            if result is None or not name:
                raise ValueError(
                    "{!r} is not a valid NetCDF variable name.".format(name))
        self._var_name = name

    @property
    def units(self):
        return self._units

    @units.setter
    def units(self, unit):
        self._units = cf_units.as_unit(unit)

    @property
    def attributes(self):
        return self._attributes

    @attributes.setter
    def attributes(self, attributes):
        self._attributes = LimitedAttributeDict(attributes or {})


def as_iterable(item):
    if isinstance(item, str) or not isinstance(item, Iterable):
        return [item]
    return list(item)
