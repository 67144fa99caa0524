"""Bounded exhaustive exploration of the real thewalrus code (see /verif/DESIGN.md)."""
