"""Deterministic simulator for dfols (see ../DESIGN.md)."""
