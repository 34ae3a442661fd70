"""Deterministic simulation of pysal/region with fault injection."""
