"""Deterministic simulation with fault injection for cache-dependencies."""
