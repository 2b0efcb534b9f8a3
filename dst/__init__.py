"""Deterministic simulation with fault injection for shepherd-datalib."""
