"""Stand-ins for what PyBox imports and this environment lacks: Assimulo and UManSysProp.

The Assimulo stand-in is also where the run is observed: every call of the right hand side and of the
Jacobian, and every batch, goes through the Monitor.
"""
import contextlib
import sys
import types

import numpy as np
from scipy.integrate import solve_ivp

from .core import Inconclusive


class Diverged(Exception):
    """The integrator left the domain."""


class Monitor:
    """Receives the events of one simulation; the default only counts."""

    def __init__(self):
        self.batches = []      # (t0, tfinal, y0, y_end)
        self.rhs_calls = 0
        self.jac_calls = 0
        self.settings = None
        self.max_events = 30000
        self.method = "LSODA"

    def rhs(self, batch, t, y, out):
        pass

    def jac(self, batch, t, y, out):
        pass

    def begin(self, batch, t0, tfinal, y0, solver):
        pass


MONITOR = [Monitor()]


class Explicit_Problem:
    def __init__(self, rhs=None, y0=None, t0=0.0, p0=None, sw0=None, name=None):
        if rhs is not None:
            self.rhs = rhs
        if y0 is not None:
            self.y0 = np.array(y0, dtype=float)
        self.t0 = float(t0)
        self.name = name or "---"


class _Solver:
    implicit = True

    def __init__(self, problem):
        self.problem = problem
        self.t = float(problem.t0)
        self.y = np.array(problem.y0, dtype=float)
        self.atol, self.rtol = 1e-6, 1e-6
        self.inith, self.maxh, self.maxncf = 0.0, 0.0, 7
        self.usejac = hasattr(problem, "jac")
        self.report_continuously = False
        self.discr, self.iter, self.maxord, self.verbosity = "BDF", "Newton", 5, 30

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        mon, p = MONITOR[0], self.problem
        tfinal = float(tfinal)
        b = len(mon.batches)
        y0 = self.y.copy()
        mon.begin(b, self.t, tfinal, y0.copy(), self)
        if tfinal < self.t:
            raise ValueError("Final time must be greater than start time.")

        def rhs(t, y):
            out = p.rhs(float(t), y)
            mon.rhs_calls += 1
            if mon.rhs_calls > mon.max_events:
                raise Inconclusive("the solver needs more than %d evaluations" % mon.max_events)
            arr = np.array(out, dtype=float).reshape(-1)
            if not np.isfinite(y).all():
                raise Diverged("the integrator diverged")
            if arr.shape != y.shape:
                raise ValueError("right hand side returned shape %r for %d unknowns" % (np.shape(out), len(y)))
            mon.rhs(b, float(t), np.array(y), arr)
            return arr

        def jac(t, y):
            out = np.array(p.jac(float(t), y), dtype=float)
            mon.jac_calls += 1
            mon.jac(b, float(t), np.array(y), out)
            return out

        kw = {"jac": jac} if self.usejac and hasattr(p, "jac") else {}
        # the stand-in integrates no coarser than this, unless what is asked for would show in the results
        rtol = float(np.min(self.rtol))
        rtol = rtol if rtol > 5e-4 else min(rtol, 1e-6)
        atol = np.asarray(self.atol, float)
        if tfinal > self.t:
            first = "BDF" if kw else mon.method
            for method in [first] + [x for x in ("LSODA", "BDF", "Radau") if x != first]:   # the next when one cannot go on
                diverged = None
                try:
                    with np.errstate(all="ignore"):
                        s = solve_ivp(rhs, (self.t, tfinal), y0, method=method, rtol=rtol, atol=atol,
                                      max_step=self.maxh if self.maxh > 0 else np.inf, **kw)
                except Diverged as e:
                    diverged = str(e)
                    continue
                if s.success and np.isfinite(s.y[:, -1]).all():
                    break
                diverged = "integration failed at %g of %g s (clock %g): %s" % (s.t[-1], tfinal, self.t, s.message)
            if diverged:
                raise Inconclusive(diverged)
            ts, ys = list(s.t), s.y.T.copy()
        else:
            ts, ys = [self.t], y0[None, :].copy()
        mon.batches.append((self.t, tfinal, y0, ys[-1].copy()))
        self.t, self.y = ts[-1], ys[-1].copy()
        return ts, ys


class CVode(_Solver):
    pass


class RodasODE(_Solver):
    pass


class Radau5ODE(_Solver):
    pass


class RungeKutta4(_Solver):
    pass


class LSODAR(_Solver):
    pass


def install_assimulo():
    a, s, p = types.ModuleType("assimulo"), types.ModuleType("assimulo.solvers"), types.ModuleType("assimulo.problem")
    for c in (CVode, RodasODE, Radau5ODE, RungeKutta4, LSODAR):
        setattr(s, c.__name__, c)
    p.Explicit_Problem = Explicit_Problem
    a.solvers, a.problem = s, p
    sys.modules.update({"assimulo": a, "assimulo.solvers": s, "assimulo.problem": p})


@contextlib.contextmanager
def monitored(mon):
    old, MONITOR[0] = MONITOR[0], mon
    try:
        yield mon
    finally:
        MONITOR[0] = old


GENERATED = ("Rate_coefficients_numba", "Reactants_conc_numba", "Loss_Gain_numba", "Jacobian_numba",
             "rate_coeff_f2py", "reactants_conc_f2py", "loss_gain_f2py", "jacobian_f2py", "partition_f2py")


@contextlib.contextmanager
def generated(directory=None, modules=None):
    """Make generated modules importable: those of a directory, or ready-made ones."""
    for n in GENERATED:
        sys.modules.pop(n, None)
    if directory:
        sys.path.insert(0, directory)
    for n, attrs in (modules or {}).items():
        m = types.ModuleType(n)
        m.__dict__.update(attrs)
        sys.modules[n] = m
    import importlib
    importlib.invalidate_caches()
    try:
        yield
    finally:
        if directory and directory in sys.path:
            sys.path.remove(directory)
        for n in GENERATED:
            sys.modules.pop(n, None)


def fortran_modules(f, part=None):
    """The four (or five) f2py modules of PyBox on top of gen.Fortran and a partition callable."""
    out = {
        "rate_coeff_f2py": {"evaluate_rates": lambda RO2, H2O, T, t: f.rates(t, RO2, H2O, T)},
        "reactants_conc_f2py": {"reactants": lambda y: f.reactants(checked(y, f.m.n))},
        "loss_gain_f2py": {"loss_gain": lambda r: f.dydt(checked(r, f.m.m))},
    }
    if "jacobian" in f.lib:
        out["jacobian_f2py"] = {"jacobian": lambda r, y: f.jacobian(checked(r, f.m.m), checked(y, f.m.n))}
    if part is not None:
        out["partition_f2py"] = {"dydt_partition": part}
    return out


def checked(a, n):
    a = np.asarray(a, float)
    if a.shape != (n,):
        raise ValueError("failed in converting argument to C/Fortran array: shape %r, expected %d" % (a.shape, n))
    return a
