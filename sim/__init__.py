"""Deterministic simulation with fault injection for the ibl package."""
