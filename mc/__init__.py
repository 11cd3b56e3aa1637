"""Bounded exhaustive exploration of eprempy (see /verif/DESIGN.md)."""
