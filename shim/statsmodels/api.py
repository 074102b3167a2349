"""Ordinary least squares, as statsmodels.api.OLS gives it."""
import numpy as np


def add_constant(data, prepend=True, has_constant="skip"):
    data = np.asarray(data)
    if data.ndim == 1:
        data = data[:, None]
    ones = np.ones((data.shape[0], 1))
    return np.column_stack((ones, data) if prepend else (data, ones))


class _Fit:
    def __init__(self, params):
        self.params = params


class OLS:
    def __init__(self, endog, exog):
        self.endog, self.exog = np.asarray(endog), np.asarray(exog)

    def fit(self):
        return _Fit(np.dot(np.linalg.pinv(self.exog), self.endog))
