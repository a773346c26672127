"""Deterministic simulator for castep_outputs (see ../DESIGN.md)."""
