"""Stand-in for the parts of statsmodels that improver uses."""
