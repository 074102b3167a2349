"""Marks features of real iris that this stand-in does not implement.

Property harnesses treat ShimUnsupported as "case not decided" (counted and
reported in the evidence), never as a violation and never as a pass.
"""


class ShimUnsupported(AttributeError, NotImplementedError):
    """The iris stand-in does not implement this feature of iris."""
