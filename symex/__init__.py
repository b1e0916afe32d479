"""Symbolic execution of the real quocslib sources (see DESIGN.md)."""
