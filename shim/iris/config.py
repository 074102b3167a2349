import logging  # noqa: F401
