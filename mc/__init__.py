"""Bounded-exhaustive, explicit-state model checking of awkward0 against plain-Python reference models."""
