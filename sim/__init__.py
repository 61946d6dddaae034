"""Deterministic simulation of DRDMannTurb under seeded schedules and faults."""
