"""Solver-based checking framework for CDMIR (see DESIGN.md)."""
