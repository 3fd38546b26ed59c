"""Simulated mpi4py (over sim/mpisim.c)."""
