"""Aerosol runs under the monitor: PyBox's coupled gas and particle solver, and the fixed yield one."""
import os
import pickle

import numpy as np

from . import figures, gen, mech as mm, part, sims, stubs, sut


def water_log10_atm(T):
    """Saturation vapour pressure of water, log10 atm (Hyland and Wexler, in the form PyBox quotes)."""
    p = np.exp(-0.58002206e4 / T + 1.3914993 - 0.48640239e-1 * T + 0.41764768e-4 * T ** 2 - 0.14452093e-7 * T ** 3
               + 6.5459673 * np.log(T))
    return np.log10(p * 9.86923e-6)


class Setup:
    """Everything a run needs besides the mechanism. gas: number of gas species without water."""

    def __init__(self, g, gas, bins, include, temp=None, RH=None, organics=True):
        self.gas, self.ns, self.bins = gas, gas + 1, bins
        self.include = sorted(int(i) for i in include) + [gas]
        self.nc = len(self.include)
        self.temp = float(temp or (g.choice([273.15, 288.15, 298.15, 308.0]) if g.random() < 0.5 else g.uniform(252, 315)))
        self.RH = float(RH if RH is not None else (g.choice([0.3, 0.5, 0.8]) if g.random() < 0.5 else g.uniform(0.03, 0.95)))
        self.sigma = part.CONST["sigma"] if g.random() < 0.5 else float(g.uniform(0.02, 0.09))
        k = self.nc
        self.mw = np.append(g.uniform(60, 350, k - 1), 18.0)
        self.density = np.append(g.uniform(900, 1700, k - 1), 1000.0)
        self.logp = np.append(g.uniform(-12, -7.5, k - 1), g.uniform(-9, 0))  # the solver sets the last one itself
        self.alpha = [0.1] * k if g.random() < 0.5 else list(g.choice([0.1, 0.5, 1.0], k))
        self.dstar = 1.9 * self.mw ** (-2.0 / 3.0)
        vel = np.sqrt(8.0 * part.R_GAS * self.temp / (np.pi * self.mw * 1e-3))
        self.gamma = 3.0 * self.dstar / (vel * 100.0) * 1e-2
        self.radius = np.exp(np.linspace(np.log(2e-8), np.log(5e-7), bins)) if bins > 1 else np.array([1.2e-7])
        if g.random() < 0.5:
            self.radius = g.permutation(self.radius)    # nothing says the bins are in order of size
        self.N = g.uniform(20, 900, bins)
        self.core_rho = np.full(bins, 1770.0) if g.random() < 0.5 else g.uniform(1200, 2200, bins)
        self.core_mw = np.full(bins, 132.14) if g.random() < 0.5 else g.uniform(60, 180, bins)
        self.diss = float(g.choice([3.0, 2.0, 1.0]))
        self.core = 4.0 / 3.0 * np.pi * self.radius ** 3 * self.core_rho / (self.core_mw * 1e-3) * part.NA * self.N
        self.psat = 10.0 ** np.append(self.logp[:-1], water_log10_atm(self.temp))
        self.water_gas = self.RH * self.psat[-1] * 101325.0 * part.NA / (8.3144598e6 * self.temp)
        cond = np.zeros((bins, k))
        cond[:, -1] = self.core * self.diss * self.RH / (1 - self.RH)
        if organics:
            cond[:, :-1] = self.core[:, None] * g.choice([0.0, 1e-11, 1e-3, 0.05], (bins, k - 1))
        self.cond = cond
        self.ignore = np.ones(self.ns)
        self.ignore[self.include] = 0.0

    def volatile(self, g):
        """Particles that hold organics which evaporate."""
        self.logp[:-1] = g.uniform(-7.5, -6.3, self.nc - 1)
        self.psat[:-1] = 10.0 ** self.logp[:-1]
        self.cond[:, :-1] = self.core[:, None] * g.choice([0.02, 0.05, 0.2], (self.bins, self.nc - 1))

    def input_dict(self):
        c = part.CONST
        return dict(
            num_species=self.ns, num_species_condensed=self.nc, y_density_array_asnumpy=self.density.copy(),
            y_mw=self.mw.copy(), sat_vp=[float(v) for v in self.logp], Delta_H=[0.0] * (self.nc - 1) + [40.66],
            Latent_heat_asnumpy=np.append(np.zeros(self.nc - 1), 2.5e3), DStar_org_asnumpy=self.dstar.copy(),
            alpha_d_org_asnumpy=np.array(self.alpha), gamma_gas_asnumpy=self.gamma.copy(), Updraft=0.0, GRAV=c["GRAV"],
            Rv=c["Rv"], Ra=c["Ra"], R_gas=c["R_gas"], R_gas_other=8.2057e-5, cp=c["cp"], sigma=self.sigma, NA=c["NA"],
            kb=c["kb"], Lv_water_vapour=c["Lv_water_vapour"], ignore_index=[i for i in range(self.gas) if self.ignore[i]],
            ignore_index_fortran=self.ignore.copy(), ycore_asnumpy=self.core.copy(),
            core_density_array_asnumpy=self.core_rho.copy(), y_cond_initial=[float(v) for v in self.cond.reshape(-1)],
            num_bins=self.bins, core_molw_asnumpy=self.core_mw.copy(), core_dissociation=self.diss,
            N_perbin=self.N.copy(), include_index=list(self.include))

    def case(self, y):
        a = dict(part.CONST, sigma=self.sigma)
        a.update(y=y, ycore=self.core, core_diss=self.diss, core_mass_array=self.core / part.NA * self.core_mw,
                 density_input=self.density, core_density_array=self.core_rho, mw_array=self.mw, Psat=self.psat,
                 DStar_org=self.dstar, alpha_d_org=np.array(self.alpha), C_g_i_t=y[: self.ns][self.include], N_perbin=self.N,
                 gamma_gas=self.gamma, Model_temp=self.temp)
        return part.Case(self.ns, self.include, self.bins, a)

    def partition(self, y):
        return part.reference(self.case(np.asarray(y, float)))

    def describe(self):
        return {"bins": self.bins, "gas species": self.gas, "include_index": self.include, "T": self.temp, "RH": self.RH,
                "dissociation": self.diss, "sigma": self.sigma, "log10 vapour pressures": self.logp[:-1]}


class AeroMonitor(sims.GasMonitor):
    """Gas chemistry plus partitioning, against the references; bound is None for a run without chemistry."""

    def __init__(self, ctx, setup, bound, ro2, start, H2O, label, witness):
        super().__init__(ctx, bound, ro2, start, setup.temp, H2O, 3e-5, 0.05, label, witness)
        self.s = setup
        self.method = "BDF"
        self.seen = []          # (batch, t, SOA, sizes) of the reference at every state visited

    def gas(self, env, y):
        """Tendencies, turnover and slack of the gas phase chemistry."""
        n = self.s.gas
        if self.b is None:
            return np.zeros(n), np.zeros(n), np.zeros(n)
        k, p = self.b.rates(*env), self.b.products(y[:n])
        d = np.abs(self.b.rates(env[0] + self.delta, *env[1:]) - self.b.rates(max(env[0] - self.delta, 0), *env[1:]))
        return self.b.dydt(k * p), self.b.gross(np.abs(k * p)), self.b.gross(np.abs(d * p))

    def beside(self, g, k, y):
        """Amounts in a particle stay small beside what it is made of."""
        n = self.s.ns
        y[:n] = super().beside(g, k, y[:n])
        y[n - 1] = abs(y[n - 1])
        c = y[n:].reshape(self.s.bins, self.s.nc)
        if k:
            c *= 10.0 ** g.uniform(-0.5, 0.5, c.shape)
        if k > 1:
            i = g.random(c.shape) < 0.2
            c[i] = -1e-3 * (c.max(1, keepdims=True) * g.uniform(0, 1, c.shape))[i]
        return y

    def probe(self, *a):
        seen = list(self.seen)
        try:
            super().probe(*a)
        except stubs.Diverged:      # a state of our own that has no tendency
            self.ctx.count("probes_without_value")
        self.seen = seen

    def rhs(self, batch, t, y, out):
        s = self.s
        soa, aw, size, dy, gp = s.partition(y)
        self.seen.append((batch, t, soa, size))
        if self.bad > 2:
            return
        if (y < 0).any():
            self.ctx.count("rhs_negative_state")
            if self.b is not None and any(c != int(c) for l in self.b.lhs for _, c in l):
                return
        env = (self.clock(batch, t), self.b.ro2(y[: s.gas], self.ro2) if self.b is not None else 0.0, self.H2O, self.temp)
        want, gross, slack = self.gas(env, y)
        if (y < 0).any() and not (np.isfinite(want).all() and np.isfinite(dy).all()):
            raise stubs.Diverged("the integrator diverged")
        want, gross, slack = (np.append(v, np.zeros(len(y) - s.gas)) for v in (want, gross, slack))
        gp2 = s.partition(np.abs(y))[4]
        bad = np.flatnonzero(~(np.abs(out - want - dy) <= self.rtol * gross + slack + 1e-4 * (np.abs(gp) + gp2) + 1e-250))
        if bad.size:
            i = int(bad[0])
            if i < s.ns:
                where = "gas species %d%s" % (i, " (water)" if i == s.gas else "")
            else:
                where = "bin %d, condensed species %d" % divmod(i - s.ns, s.nc)
            self.report("rhs", "batch %d, t=%r: tendency of %s is %r, chemistry gives %r and partitioning %r"
                        % (batch, t, where, float(out[i]), float(want[i]), float(dy[i])))
        self.ctx.count("rhs_checked")


def reference_run(setup, bound, ro2, y0, start, H2O, ends):
    n = setup.gas

    def f(s, v):
        v = np.maximum(v, 0)
        d = setup.partition(v)[3]
        if bound is not None:
            d[:n] += bound.rhs(start + s, v[:n], H2O, setup.temp, ro2)
        return d
    return sims.conditioned(lambda y, rtol: sims.march(f, None, y, ends, "LSODA", max(rtol, 1e-7), 1e-2), y0)


class Run:
    """One aerosol run. model None: the fixed yield solver, which has no chemistry."""

    def __init__(self, ctx, directory, name, setup, model=None, bound=None, fortran=None, partition=None, conc=None, gas0=None,
                 start=43200.0, H2O=2e17, total=300.0, batch=100.0, save=True, label="aerosol", witness=None, monitor=True, plot=False, inp=None, idx=None,
                 screen="fine"):
        w = dict(witness or {}, start=start, total=total, batch=batch, setup=setup.describe(), conc=conc)
        self.path = os.path.join(directory, name)
        ro2 = (mm.ro2_reference() & set(bound.index)) if bound is not None else set()
        self.ro2_names = ro2
        if isinstance(monitor, stubs.Monitor):
            self.mon = monitor
        else:
            self.mon = AeroMonitor(ctx, setup, bound, ro2, start, H2O, label, w) if monitor else stubs.Monitor()
        P = partition or part.Partition(directory, setup.ns, setup.include, setup.bins)
        fresh, inp = inp is None, inp or setup.input_dict()
        self.inp = inp
        if model is not None and fresh:
            inp.update(species_dict=dict(model.out["species_dict"]), species_dict2array=dict(model.out["species_dict2array"]),
                       species_initial_conc=dict(conc), equations=model.m)
            inp["species_dict2array"].update({"H2O": setup.gas, "cation": setup.ns, "anion": setup.ns + 1})
        if model is not None:
            mod = sims.solver_module("Aerosol/f2py/ODE_solver.py")
            f = fortran or gen.Fortran(model, ("rates", "reactants", "dydt"))
            mods = stubs.fortran_modules(f, P)
            idx = model.ro2_indices() if idx is None else idx
            args = (name, save, start, setup.temp, setup.RH, idx, H2O, 98000, inp["y_cond_initial"], inp, total, batch, plot)
        else:
            if fresh:
                names = {i: "S%d" % i for i in range(setup.gas)}
                inp.update(species_dict=names, species_dict2array={v: k for k, v in names.items()}, y_gas_initial=[float(v) for v in gas0])
            mod = sims.solver_module("Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py")
            mods = {"partition_f2py": {"dydt_partition": P}}
            args = (name, save, start, setup.temp, setup.RH, H2O, 98000, inp["y_cond_initial"], inp, total, batch)
        with sut.cwd(directory), stubs.monitored(self.mon), stubs.generated(None, mods), figures.shown(screen) as self.figures:
            self.returned = sut.call("run_simulation (%s)" % label, mod.run_simulation, *args)
        self.ends = [b[1] - b[0] for b in self.mon.batches]
        self.states = np.array([b[3] for b in self.mon.batches])

    def saved(self, what):
        def load():
            with open("%s%s.pickle" % (self.path, what), "rb") as f:
                return pickle.load(f)
        return sut.call("loading the saved " + what, load)
