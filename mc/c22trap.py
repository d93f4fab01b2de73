"""Importing this module is recorded (it does nothing else)."""
from mc import c22funcs

c22funcs.log.append("import c22trap")


def f(*args):
    c22funcs.log.append("c22trap.f")
    return ("c22trap.f", args, ())
