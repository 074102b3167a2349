"""Property-based testing framework for IMPROVER (see /verif/DESIGN.md)."""
