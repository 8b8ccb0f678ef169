"""Minimal eager stand-in for dask (not installed offline)."""
from . import array  # noqa: F401
