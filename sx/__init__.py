"""Symbolic executor for the Python subset used by fastkml (see DESIGN.md)."""
