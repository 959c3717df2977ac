"""Running PyBox's simulation routines under the solver-boundary monitor."""
import contextlib
import inspect
import os
import sys

import numpy as np
from scipy.integrate import solve_ivp

from . import figures, gen, mcm, mech as mm, stubs, sut
from .core import SutError

CFACTOR = 2.55e10


def solver_module(rel):
    stubs.install_assimulo()
    return sut.load(rel)


class GasMonitor(stubs.Monitor):
    """Checks every call of the right hand side and of the Jacobian against the reference, online."""

    def __init__(self, ctx, bound, ro2, start, temp, H2O, rtol, delta, label, witness):
        super().__init__()
        self.ctx, self.b, self.ro2, self.start, self.temp, self.H2O = ctx, bound, ro2, start, temp, H2O
        self.rtol, self.delta, self.label, self.w = rtol, delta, label, witness
        self.elapsed = [0.0]
        self.bad = 0
        self.times = []
        self.usejac = []
        self.starts = []

    def begin(self, batch, t0, tfinal, y0, solver):
        while len(self.elapsed) <= batch + 1:
            self.elapsed.append(self.elapsed[-1])
        self.elapsed[batch + 1] = self.elapsed[batch] + (tfinal - t0)
        self.t0 = t0
        self.usejac.append(bool(solver.usejac) and hasattr(solver.problem, "jac"))
        self.starts.append(y0)
        if batch < 3:
            self.probe(batch, t0, tfinal, y0, solver.problem)

    def probe(self, batch, t0, tfinal, y0, problem):
        """States beside those the run will visit: what an integrator may try, slightly negative ones among them."""
        g = np.random.default_rng(abs(hash((batch, len(y0), float(tfinal)))))
        for k in range(4):
            y, t = self.beside(g, k, y0.copy()), float(g.uniform(t0, tfinal))
            with np.errstate(all="ignore"):
                out = np.array(problem.rhs(t, y.copy()), float).reshape(-1)
            if out.shape != y.shape:
                raise SutError("the right hand side", ValueError("%s values for %d unknowns" % (out.shape, len(y))))
            self.rhs(batch, t, y, out)
            if hasattr(problem, "jac") and k < 2 and len(y) <= 400 and (y >= 0).all():
                self.jac(batch, t, y, np.array(problem.jac(t, y.copy()), float))
            self.ctx.count("probes")

    def beside(self, g, k, y):
        if k:
            y *= 10.0 ** g.uniform(-0.5, 0.5, len(y))
        if k == 1:
            y[g.random(len(y)) < 0.3] += 10.0 ** g.uniform(2, 10)
        if k > 1:
            i = g.random(len(y)) < 0.2
            y[i] = -10.0 ** g.uniform(-3, 3, int(i.sum()))
        return y

    def clock(self, batch, t):
        return self.start + self.elapsed[batch] + (t - self.t0)

    def env(self, batch, t, y):
        return self.clock(batch, t), self.b.ro2(y, self.ro2), self.H2O, self.temp

    def report(self, key, what, **kw):
        self.bad += 1
        if self.bad <= 2:
            self.ctx.violation("%s-%s" % (key, self.label), "%s: %s" % (self.label, what), **self.w, **kw)

    def rhs(self, batch, t, y, out):
        if self.bad > 2:
            return
        if (y < 0).any():
            self.ctx.count("rhs_negative_state")
            if any(c != int(c) for l in self.b.lhs for _, c in l):
                return
        env = self.env(batch, t, y)
        k = self.b.rates(*env)
        p = self.b.products(y)
        want, gross = self.b.dydt(k * p), self.b.gross(k * p)
        slack = np.zeros(self.b.n)
        if self.delta:
            d = np.abs(self.b.rates(env[0] + self.delta, *env[1:]) - self.b.rates(max(env[0] - self.delta, 0), *env[1:]))
            slack = self.b.gross(d * p)
        bad = np.flatnonzero(~(np.abs(out - want) <= self.rtol * gross + slack + 1e-250))
        if bad.size:
            i = int(bad[0])
            s = [x for x, q in self.b.index.items() if q == i][0]
            self.report("rhs", "batch %d, t=%r (time of day %r): d[%s]/dt is %r, mass action gives %r"
                        % (batch, t, env[0], s, float(out[i]), float(want[i])),
                        involved=[repr(r) for r in self.b.mech.reactions if s in r.lhs or s in r.rhs][:8])
        self.ctx.count("rhs_checked")

    def jac(self, batch, t, y, out):
        if self.bad > 2:
            return
        if (y < 0).any() and any(c != int(c) for l in self.b.lhs for _, c in l):
            return
        env = self.env(batch, t, y)
        k = self.b.rates(*env)
        want, gross = self.b.jacobian(k, y), self.b.jacobian(k, y, gross=True)
        slack = 0.0
        if self.delta:
            d = np.abs(self.b.rates(env[0] + self.delta, *env[1:]) - self.b.rates(max(env[0] - self.delta, 0), *env[1:]))
            slack = self.b.jacobian(d, np.abs(y), gross=True)
        bad = ~(np.abs(out - want) <= self.rtol * np.abs(gross) + slack + 1e-250)
        if bad.any():
            i, j = map(int, np.argwhere(bad)[0])
            self.report("jac", "batch %d, t=%r: Jacobian entry (%d,%d) is %r, the derivative is %r"
                        % (batch, t, i, j, float(out[i, j]), float(want[i, j])))
        self.ctx.count("jac_checked")


def schedule(total, batch):
    """End times of the batches of a run."""
    n = int(np.ceil(round(total / batch, 9)))
    return np.array([min((i + 1) * batch, total) for i in range(n)])


def reference_run(bound, ro2, y0, start, temp, H2O, ends):
    """The state at each end time; None when no integrator resolves it, or small errors grow into large ones."""
    whole = all(c == int(c) for l in bound.lhs for _, c in l)
    cut = (lambda v: v) if whole else (lambda v: np.maximum(v, 0))
    f = lambda s, v: bound.rhs(start + s, cut(v), H2O, temp, ro2)
    j = lambda s, v: bound.jacobian(bound.rates(start + s, bound.ro2(cut(v), ro2), H2O, temp), cut(v))

    def run(y, rtol):
        for method, tol in (("BDF", rtol), ("Radau", rtol), ("LSODA", rtol * 0.01)):
            out = march(f, j, y, ends, method, tol, 1e-3)
            if out is not None and (out > -1e-4 * np.max(np.abs(out), axis=0) - 10).all():
                return out
        return None
    return conditioned(run, y0)


WORK = 30000        # evaluations a reference run may take


class TooLong(Exception):
    pass


def march(f, j, y, ends, method, rtol, atol):
    kw = {} if j is None else {"jac": j}
    out, t, y = [], 0.0, np.array(y, float)
    left = [WORK]

    def counted(s, v):
        left[0] -= 1
        if left[0] < 0:
            raise TooLong()
        return f(s, v)

    with np.errstate(all="ignore"):
        for e in ends:
            try:
                s = solve_ivp(counted, (t, e), y, method=method, rtol=rtol, atol=atol, max_step=100.0, **kw)
            except (ValueError, TooLong):
                return None
            t, y = e, s.y[:, -1]
            if not s.success or not np.isfinite(y).all():
                return None
            out.append(y)
    return np.array(out)


def conditioned(run, y0):
    """A run at two tolerances from slightly different states; None when the two differ by more than the oracle could forgive."""
    y0 = np.array(y0, float)
    a, b = run(y0, 1e-6), run(y0 * (1 + 2e-6) + 0.1 * (y0 > 0), 1e-8)
    if a is None or b is None:
        return None
    scale = np.maximum(np.abs(a).max(0), np.abs(b).max(0)) + 1e3
    return b if (np.abs(a - b) <= 4e-3 * scale).all() else None


def initial(bound, conc):
    y0 = np.zeros(bound.n)
    for s, c in conc.items():
        y0[bound.index[s]] = c * CFACTOR
    return y0


class Run:
    """One gas-phase simulation through PyBox's own run_simulation."""

    def __init__(self, ctx, model, bound, backend, conc, start, temp, RH, H2O, total, batch, fortran=None,
                 save=True, monitor=True, label=None, witness=None, rtol=None, delta=None, inp=None, where=None, idx=None,
                 screen="fine"):
        self.model, self.bound = model, bound
        self.ro2_names = mm.ro2_reference() & set(bound.index)
        fort = backend == "fortran"
        label = label or backend
        w = dict(witness or {})
        w.update(conc=conc, start=start, temp=temp, RH=RH, H2O=H2O, total=total, batch=batch)
        idx = model.ro2_indices() if idx is None else idx
        where = where or model.dir
        if isinstance(monitor, stubs.Monitor):
            self.mon = monitor
        elif monitor:
            self.mon = GasMonitor(ctx, bound, self.ro2_names, start, temp, H2O,
                                  rtol or (3e-5 if fort else 1e-8), (0.05 if fort else 1e-6) if delta is None else delta, label, w)
        else:
            self.mon = stubs.Monitor()
        inp = self.inp = inp or {"species_dict": dict(model.out["species_dict"]),
                                 "species_dict2array": dict(model.out["species_dict2array"]),
                                 "species_initial_conc": dict(conc), "equations": model.m}
        mod = solver_module("f2py/ODE_solver.py" if fort else "ODE_solver.py")
        out = None
        with sut.cwd(where), stubs.monitored(self.mon), figures.shown(screen) as self.figures:
            if fort:
                f = fortran or gen.Fortran(model, ("rates", "reactants", "dydt", "jacobian"))
                with stubs.generated(None, stubs.fortran_modules(f)):
                    out = sut.call("run_simulation (Fortran)", mod.run_simulation, model.name, start, save, temp, RH, idx,
                                   H2O, inp, total, batch)
            else:
                with stubs.generated(model.dir):
                    out = sut.call("run_simulation (numba)", mod.run_simulation, model.name, save, start, temp, RH, idx,
                                   H2O, inp, total, batch)
        self.returned = out
        self.ends = [b[1] - b[0] for b in self.mon.batches]
        self.states = np.array([b[3] for b in self.mon.batches])
        self.path = os.path.join(where, model.name)

    @property
    def y(self):
        if self.returned is not None:
            return np.asarray(self.returned[1], float)
        return self.saved()

    def saved(self):
        return sut.call("loading the saved output", np.load, self.path + "_output.npy")
