"""Symbolic execution of the real zernpy source: values, engine, numpy shim, loader."""
