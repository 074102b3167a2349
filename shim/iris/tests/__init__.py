"""Stand-in for iris.tests.IrisTest: the assertions IMPROVER's unit tests use."""
import unittest
import warnings
from unittest import mock

import numpy as np
import numpy.ma as ma


class IrisTest_nometa(unittest.TestCase):
    _assertion_counts = {}

    def assertArrayEqual(self, a, b, err_msg=""):
        np.testing.assert_array_equal(a, b, err_msg=err_msg)

    def assertArrayAlmostEqual(self, a, b, decimal=6):
        np.testing.assert_array_almost_equal(a, b, decimal=decimal)

    def _assertMaskedArray(self, assertion, a, b, strict, **kwargs):
        np.testing.assert_array_equal(ma.getmaskarray(a), ma.getmaskarray(b))
        if strict:
            assertion(ma.getdata(a), ma.getdata(b), **kwargs)
        else:
            m = ma.getmaskarray(a)
            assertion(ma.getdata(a)[~m], ma.getdata(b)[~m], **kwargs)

    def assertMaskedArrayEqual(self, a, b, strict=False):
        self._assertMaskedArray(np.testing.assert_array_equal, a, b, strict)

    def assertMaskedArrayAlmostEqual(self, a, b, decimal=6, strict=False):
        self._assertMaskedArray(np.testing.assert_array_almost_equal, a, b, strict,
                                decimal=decimal)

    def assertArrayAllClose(self, a, b, rtol=1.0e-7, atol=1.0e-8, **kwargs):
        np.testing.assert_allclose(a, b, rtol=rtol, atol=atol)

    def assertWarnsRegexp(self, expected_regexp=""):
        return self.assertWarnsRegex(Warning, expected_regexp)

    def assertStringEqual(self, a, b):
        self.assertEqual(a, b)

    def patch(self, *args, **kwargs):
        patcher = mock.patch(*args, **kwargs)
        result = patcher.start()
        self.addCleanup(patcher.stop)
        return result


class IrisTest(IrisTest_nometa):
    pass


def main():
    unittest.main()


_ = warnings
