"""Deterministic simulation of klang: see DESIGN.md."""
