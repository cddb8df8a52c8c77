"""Deterministic simulation of whole spectralDNS jobs (see ../DESIGN.md)."""
