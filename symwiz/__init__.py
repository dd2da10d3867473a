"""Bounded symbolic execution of the real wizard package (see DESIGN.md)."""
