"""The Fortran gas-phase simulation integrates the mechanism: online monitor at the solver boundary."""
from . import c17


def check(ctx):
    c17.check(ctx, "fortran")
