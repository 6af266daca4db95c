"""Deterministic simulator for MaterSDK (see /verif/DESIGN.md)."""
