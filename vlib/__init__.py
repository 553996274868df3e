"""Shared machinery of the property checks (see /verif/DESIGN.md)."""
