"""Lazy data helpers, on dask."""
import numpy as np


def is_lazy_data(data):
    return hasattr(data, "compute")


def as_concrete_data(data):
    if is_lazy_data(data):
        data = data.compute(scheduler="synchronous")
        if not isinstance(data, np.ndarray):
            data = np.asanyarray(data)
    return data


def as_lazy_data(data, chunks=None, asarray=False):
    import dask.array as da

    if is_lazy_data(data):
        return data
    if isinstance(data, np.ma.core.MaskedConstant):
        data = np.ma.masked_array(data.data, mask=data.mask)
    return da.from_array(data, chunks=data.shape or -1, asarray=asarray, name=False)
