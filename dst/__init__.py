"""Deterministic simulation of jsonclasses with fault injection."""
