"""Semantics of solver-native global constraints that test solver libraries keep."""
G = {}
