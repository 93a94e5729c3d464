"""Deterministic simulator with fault injection for pysim (see ../DESIGN.md)."""
