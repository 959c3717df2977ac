"""The aerosol driver scripts: seed, gas, properties and results, with earlier files in place, and reused files."""
import itertools
import os
import pickle

import numpy as np

from .. import aero, cases, chem, drivers, fakepybel, gen, mech as mm, part, sims
from ..core import Inconclusive
from .c21 import REUSE, named, water
from .c25 import BP, CRIT, RHO, VP

SCRIPTS = {"aerosol": ("Aerosol/f2py/Aerosol_simulation_f2py.py", "ODE_solver"),
           "fixed": ("Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py", "ODE_solver_fixedyield")}
R_WATER = 8.314472
SAVED = ("_y_output", "_t_output", "_SOA_output", "_size_output")


def saved(rec):
    """What a run has just saved; the next one overwrites it."""
    out = {}
    for x in SAVED:
        try:
            with open(os.path.join(rec["dir"], rec["args"]["filename"] + x + ".pickle"), "rb") as f:
                out[x] = pickle.load(f)
        except (OSError, KeyError):
            out[x] = None
    return out


class Told:
    """What the script settles by itself, checked against what reached the solver."""

    def __init__(self, ctx, label, rec, w):
        self.ctx, self.label, self.w = ctx, label, w
        self.a, self.inp, self.g, self.set = rec.get("args"), rec.get("input"), dict(rec.get("globals", {})), rec["settings"]
        self.g.update(self.set)

    def close(self, key, what, got, want, rtol=1e-9, atol=0.0):
        return self.ctx.expect_close("%s-%s" % (key, self.label), "%s: %s" % (self.label, what), got, want, rtol, atol, **self.w)

    def bad(self, key, what):
        self.ctx.violation("%s-%s" % (key, self.label), "%s: %s" % (self.label, what), **self.w)

    def setup(self, gas, smiles):
        """The set-up of the run; smiles: what each gas species is made of, None without structure. None when it is wrong."""
        a, inp = self.a, self.inp
        T, RH = float(a["temp"]), float(a["RH"])
        s = aero.Setup.__new__(aero.Setup)
        s.sigma = float(inp["sigma"])
        s.gas, s.ns, s.temp, s.RH = gas, gas + 1, T, RH
        s.include = [int(i) for i in inp["include_index"]]
        s.bins, s.nc = int(inp["num_bins"]), int(inp["num_species_condensed"])
        if int(inp["num_species"]) != s.ns or s.nc != len(s.include) or s.include != sorted(set(s.include)) or s.include[-1] != gas:
            self.bad("include", "%s gas species of which %s partition, indices %s" % (inp["num_species"], s.nc, s.include))
            return None
        if any(smiles[i] is None for i in s.include[:-1]):
            self.bad("structure", "species without a structure partition: %s" % s.include)
            return None
        obj = {i: fakepybel.Molecule(x) for i, x in enumerate(smiles) if x is not None}
        got_d, got_p = np.asarray(inp["y_density_array_asnumpy"], float), np.asarray(inp["sat_vp"], float)
        got_m = np.asarray(inp["y_mw"], float)
        inc = s.include[:-1]
        fit, fits = {"density": [], "pressure": []}, []
        e = self.set
        for rho, crit in itertools.product([e.get("density_method")] if "density_method" in e else RHO,
                                           [e.get("critical_method")] if "critical_method" in e else CRIT):
            want = np.array([chem.expected(obj[i], T, VP[0], BP[0], crit, rho)[0] for i in inc] + [1000.0])
            if want.shape == got_d.shape and np.allclose(got_d, want, rtol=1e-9):
                fit["density"] = want
        for vp, bp in itertools.product([e.get("vp_method")] if "vp_method" in e else VP, [e.get("bp_method")] if "bp_method" in e else BP):
            p = np.array([chem.expected(obj[i], T, vp, bp, CRIT[0], RHO[0])[1] for i in inc] + [aero.water_log10_atm(T)])
            if p.shape == got_p.shape and np.allclose(got_p, p, rtol=1e-7):
                fit["pressure"] = p
                fits.append((vp, bp))
        for what, v in fit.items():
            if not len(v):
                self.bad(what, "the %s values %s of species %s are not those of any choice of methods"
                         % (what, list(got_d if what == "density" else got_p)[:6], inc[:6]))
                return None
        s.mw = np.array([obj[i].molwt for i in inc] + [18.0])
        if not self.close("molar-mass", "molar masses", got_m, s.mw):
            return None
        s.density, s.logp = fit["density"], fit["pressure"]
        s.psat = 10.0 ** s.logp
        s.dstar = 1.9 * s.mw ** (-2.0 / 3.0)
        s.gamma = 3.0 * s.dstar / (np.sqrt(8.0 * 8.3144598 * T / (np.pi * s.mw * 1e-3)) * 100.0) * 1e-2
        s.alpha = [0.1] * s.nc
        for name, want in (("DStar_org_asnumpy", s.dstar), ("gamma_gas_asnumpy", s.gamma), ("alpha_d_org_asnumpy", s.alpha)):
            if not self.close("kinetic", name, inp[name], want, 1e-7):
                return None
        flags = np.asarray(inp["ignore_index_fortran"], float)
        s.ignore = np.ones(s.ns)
        s.ignore[s.include] = 0.0
        self.close("flags", "exclusion flags", flags, s.ignore)
        # those left out have no structure or are more volatile than every one that takes part
        # (where several choices of methods fit, because nothing but water partitions, by the most favourable one)
        outs = [[chem.expected(obj[i], T, vp, bp, CRIT[0], RHO[0])[1] for i in obj if i not in s.include] for vp, bp in fits]
        out = max(outs, key=lambda v: min(v, default=0.0))
        if out and len(inc) and min(out) <= max(s.logp[:-1]):
            self.bad("selection", "a species of log10 vapour pressure %r is left out, one of %r takes part" % (min(out), max(s.logp[:-1])))
        if self.set.get("ignore_vp") is False and any(i not in s.include for i in obj):
            self.bad("selection", "species with a structure are left out, though none should be")
        if self.set.get("ignore_vp") and "vp_cutoff" in self.set and max(s.logp[:-1], default=-99) > self.set["vp_cutoff"]:
            self.bad("selection", "a species of log10 vapour pressure %r takes part, the cut-off is %r"
                     % (max(s.logp[:-1]), self.set["vp_cutoff"]))
        if out and "vp_cutoff" in self.g and min(out) <= self.g["vp_cutoff"]:
            self.bad("selection", "a species of log10 vapour pressure %r is left out, the cut-off is %r" % (min(out), self.g["vp_cutoff"]))
        self.ctx.count("compounds", len(inc))
        # the seed
        s.N = np.asarray(inp["N_perbin"], float)
        s.core, s.core_rho = np.asarray(inp["ycore_asnumpy"], float), np.asarray(inp["core_density_array_asnumpy"], float)
        s.core_mw, s.diss = np.asarray(inp["core_molw_asnumpy"], float), float(inp["core_dissociation"])
        if not (s.N.shape == s.core.shape == s.core_rho.shape == s.core_mw.shape == (s.bins,)):
            self.bad("bins", "the seed arrays do not have one entry for each of %d bins" % s.bins)
            return None
        for name, got in (("core_mw", s.core_mw), ("core_density_array", s.core_rho)):
            if name in self.set:
                self.close("setting", "%s, which the user set" % name, got, self.set[name].at(s.bins), 1e-12)
                self.ctx.count("varied_cores")
        r = (s.core * s.core_mw * 1e-3 / (part.NA * s.N * s.core_rho * 4.0 / 3.0 * np.pi)) ** (1.0 / 3.0)
        s.radius = r
        ln = np.log(r)
        if s.bins > 2 and not (np.diff(ln) > 0).all() or np.abs(np.diff(ln, 2)).max(initial=0) > 1e-6:
            self.bad("sizes", "the dry radii %s do not increase in equal steps of their logarithm" % r)
            return None
        q = np.log(s.N * r)
        if s.bins > 3 and (np.abs(np.diff(q, 3)).max() > 1e-6 or (np.diff(q, 2) >= 0).any()):
            self.bad("shape", "the numbers per bin %s are not lognormal over the radii %s" % (s.N, r))
        g = self.g
        for name, got in (("num_bins", s.bins), ("core_dissociation", s.diss)):
            if name in self.set:
                self.close("setting", "%s, which the user set" % name, got, self.set[name])
        if "total_conc" in g:
            self.close("number", "number of particles", s.N.sum(), g["total_conc"])
        if "lowersize" in g and "uppersize" in g and s.bins > 1:
            self.close("range", "smallest and largest radius", [r[0], r[-1]], [g["lowersize"] * 1e-6, g["uppersize"] * 1e-6], 1e-7)
        if "meansize" in g and "std" in g and s.bins > 2:
            z = np.log(r / (g["meansize"] * 1e-6)) / np.log(g["std"])
            n = np.exp(-0.5 * z * z) / r
            self.close("median", "numbers per bin", s.N, n / n.sum() * s.N.sum(), 1e-7)
        s.cond = np.zeros((s.bins, s.nc))
        s.cond[:, -1] = s.core * s.diss * RH / (1 - RH)
        for what in (inp["y_cond_initial"], a["y_cond"]):
            if not self.close("seed-water", "initial condensed amounts", what, s.cond.reshape(-1)):
                return None
        c = part.CONST
        for name in sorted(set(inp) & {"GRAV", "Rv", "Ra", "R_gas", "cp", "sigma", "NA", "kb", "Lv_water_vapour"}):
            self.close("constants", name, inp[name], c[name], 1e-3)
        s.water_gas = None
        self.ctx.count("set_ups")
        return s


def trajectory(told, rec, s, bound, ro2, y0, H2O):
    ctx, a = told.ctx, told.a
    if rec["dry"]:
        ctx.count("settled_runs")
        return None
    ends = sims.schedule(a["simulation_time"], a["batch_step"])
    batches = rec["batches"]
    if len(batches) != len(ends):
        told.bad("schedule", "%d batches, expected %d" % (len(batches), len(ends)))
        return None
    states = np.array([b[3] for b in batches])
    if not told.close("initial", "initial state", batches[0][2], y0, 1e-9):
        return None
    if a["save_output"]:
        load = rec["saved"].get
        if any(load(x) is None for x in SAVED):
            told.bad("saved", "results were not saved: %s" % [x for x in SAVED if load(x) is None])
            return None
        told.close("saved", "saved states", load("_y_output"), states, 1e-12)
        told.close("saved", "saved times", load("_t_output"), ends, 1e-9)
        soa, size = np.asarray(load("_SOA_output"), float).reshape(-1), np.asarray(load("_size_output"), float)
        if soa.shape != (len(ends),) or size.shape != (len(ends), s.bins):
            told.bad("saved", "saved masses %s and sizes %s for %d batches" % (soa.shape, size.shape, len(ends)))
        else:
            e = [s.partition(y) for y in states]
            told.close("saved", "saved organic mass", soa, [v[0] for v in e], 2e-2, 1e-3)
            told.close("saved", "saved sizes", size, [v[2] for v in e], 2e-2)
        ctx.count("saved_results")
    if told.w["step"] == "reused":
        return states               # compared with the first run
    n = min(len(ends), ctx.n(2, 6))
    ref = aero.reference_run(s, bound, ro2, y0, a["start_time"], H2O, ends[:n])
    if ref is None:
        ctx.count("reference_failed")
        return states
    scale = np.abs(ref).max(0) + 1e4
    if (states[:n] < -1e-3 * scale).any():
        ctx.count("unstable_runs")
        return states
    err = np.abs(states[:n] - ref) / scale
    if (err > 3e-2).any():
        i, j = np.unravel_index(np.argmax(err), err.shape)
        told.bad("result", "state %d is %r after %g s, the reference gives %r" % (j, float(states[i, j]), ends[i], float(ref[i, j])))
        return None
    ctx.count("states_compared", n * states.shape[1])
    return states


def judge_aerosol(ctx, m, smiles, rec, w):
    t = Told(ctx, "aerosol", rec, w)
    if rec["error"]:
        t.bad("driver", "the driver fails: %s" % rec["error"][-700:])
        return None
    a, inp = t.a, t.inp
    index = {s: int(i) for s, i in inp["species_dict2array"].items()}
    water_at = index.pop("H2O", None)       # the water vapour that condenses; a mechanism may list water besides
    own = [int(i) for i, x in inp["species_dict"].items() if x == "H2O"]
    if len(own) == 1:
        index["H2O"] = own[0]
    ns = len(m.species)
    if set(index) != set(m.species) or sorted(index.values()) != list(range(ns)) or int(inp.get("equations", len(m))) != len(m) or water_at != ns:
        t.bad("mechanism", "the run uses %s equations and %d species (water %s), the mechanism file has %d and %d"
              % (inp.get("equations"), len(index), water_at, len(m), ns))
        return None
    b = m.bind(index)
    ro2 = mm.ro2_reference() & set(index)
    if sorted(int(i) for i in a["RO2_indices"]) != sorted(index[s] for s in ro2):
        t.bad("ro2", "RO2 indices %s, expected %s" % (list(a["RO2_indices"]), sorted(index[s] for s in ro2)))
        return None
    drivers.settings_reach(ctx, "aerosol", rec, w)
    t.close("water", "water vapour", a["H2O"], water(a["temp"], a["RH"]))
    order = [None] * ns
    for s, i in index.items():
        order[i] = smiles.get(s)
    s = t.setup(ns, order)
    if s is None:
        return None
    conc = {k: float(v) for k, v in inp["species_initial_conc"].items()}
    y0 = np.zeros(s.ns + s.bins * s.nc)
    y0[:ns] = sims.initial(b, {k: v for k, v in conc.items() if k != "H2O"})
    y0[ns] = conc.get("H2O", 0.0)
    if "H2O" in index:
        y0[index["H2O"]] = y0[ns]
        ctx.count("water_in_the_mechanism")
    t.close("water", "water vapour at the start", y0[ns], a["H2O"])
    y0[s.ns:] = s.cond.reshape(-1)
    out = trajectory(t, rec, s, b, ro2, y0, a["H2O"])
    if out is None:
        return None
    names = {i: x for x, i in index.items()}
    names[ns] = "water vapour"
    return table(out, s, names)


def judge_fixed(ctx, smiles, yields, rec, w):
    t = Told(ctx, "fixed", rec, w)
    if rec["error"]:
        t.bad("driver", "the driver fails: %s" % rec["error"][-700:])
        return None
    a, inp = t.a, t.inp
    index = {s: int(i) for s, i in inp["species_dict2array"].items()}
    water_at = index.pop("H2O", None)
    ns = len(smiles)
    if set(index) != set(smiles) or sorted(index.values()) != list(range(ns)) or water_at != ns:
        t.bad("mechanism", "the run uses %d species (water %s), the file has %d" % (len(index), water_at, ns))
        return None
    T = a["temp"]
    drivers.settings_reach(ctx, "fixed", rec, w)
    t.close("water", "water vapour", a["H2O"], a["RH"] * part.NA * 10.0 ** aero.water_log10_atm(T) / 9.86923e-6 * 1e-6 / (R_WATER * T))
    order = [None] * ns
    for s, i in index.items():
        order[i] = s
    s = t.setup(ns, order)
    if s is None:
        return None
    if s.include != list(range(ns + 1)):
        t.ctx.count("some_excluded")
    got = np.asarray(inp["y_gas_initial"], float)
    want = np.array([yields[x] for x in order])
    if got.shape != (ns + 1,):
        t.bad("yields", "%d initial gas amounts for %d species" % (len(got), ns + 1))
        return None
    if "total_voc_mass" in t.g and "voc_mw" in t.g:
        mass = t.g["total_voc_mass"] * T / (12.187 * t.g["voc_mw"]) * 2.46e10
    else:           # a script that names them otherwise
        mass = got[:ns].sum() / want.sum()
    t.close("yields", "initial gas amounts", got[:ns], want * mass, 1e-6)
    t.close("water", "water vapour at the start", got[ns], a["H2O"])
    y0 = np.append(np.append(want * mass, a["H2O"]), s.cond.reshape(-1))
    out = trajectory(t, rec, s, None, set(), y0, a["H2O"])
    if out is None:
        return None
    return table(out, s, dict(enumerate(order + ["H2O"])))


def table(states, s, names):
    out = {("gas", names[i]): states[:, i] for i in range(s.ns)}
    c = states[:, s.ns:].reshape(len(states), s.bins, s.nc)
    for j, i in enumerate(s.include):
        for b in range(s.bins):
            out[b, names[i]] = c[:, b, j]
    return out


def choose(g, label):
    """What a user may set in the script."""
    one = lambda *x: x[int(g.integers(len(x)))]
    out = {"temp": one(273.15, 298.15, 305.0, 290), "RH": one(0.2, 0.35, 0.7, 0.85), "hour_of_day": one(6.5, 9.0, 17.0, 11),
           "num_bins": one(4, 5, 8, 11), "total_conc": one(50, 250, 600), "std": one(1.8, 2.6, 3.0), "lowersize": one(0.02, 0.05),
           "uppersize": one(0.4, 0.8), "meansize": one(0.08, 0.15, 0.3), "core_dissociation": one(1.0, 2.0, 2),
           "vp_method": str(one(*VP)), "bp_method": str(one(*BP)), "critical_method": str(one(*CRIT)), "density_method": str(one(*RHO)),
           "simulation_time": one(600.0, 900.0, 1000.0, 700), "batch_step": one(100.0, 150.0, 300.0, 140)}
    if label == "aerosol":
        out["openMP"] = True
    out["core_mw"], out["core_density_array"] = (drivers.PerBin(one(58.44, 132.14), one(115.11, 250.0)),
                                                 drivers.PerBin(one(1500.0, 1770.0), one(2160.0, 1200.0)))
    if label == "fixed":
        out.update(total_voc_mass=one(5.0, 60.0), voc_mw=one(100.0, 200.0))
    else:
        out.update({"vp_cutoff": one(-8.0, -7.0, -5.0), drivers.INITIAL[0]: one(0.0, 8.0, 50.0), drivers.INITIAL[1]: one(3.0, 18.0)})
    return {n: v for n, v in out.items() if n in ("RH", "temp") or g.random() < 0.7}


def prepare(g, label, ws, settings, shipped=None, most=None, water=False):
    """A new mechanism, or yield file, in the place where the script looks for it."""
    if label == "aerosol":
        if shipped is None:
            m = drivers.mechanism(g, int(g.integers(3, 10)), water)
            text = mm.write(m)
        else:
            m, text = mm.load_shipped(shipped), cases.shipped_text(shipped)
        smi = chem.distinct_smiles(g, len(m.species) + 3)
        extra = ["ZZ%d" % i for i in range(3)]
        smiles = {s: (x if g.random() < 0.75 else None) for s, x in zip(list(m.species) + extra, smi)}
        smiles.update({s: None for s in mm.INERT if s in smiles})
        if most is not None:        # hardly any compound has a structure
            kept = [str(x) for x in g.permutation([s for s in m.species if s not in ("OH", "HO2", "O3") + mm.INERT])[:most]]
            smiles = {s: (x if s in kept else None) for s, x in zip(list(m.species) + extra, smi)}
        order = [list(smiles.items())[i] for i in g.permutation(len(smiles))]
        ws.mechanism(named(g, ws, SCRIPTS[label][0], settings), text)
        ws.write("Aerosol/MCM.xml", chem.xml(order, g))
        return m, {s: (None if s in ("OH", "HO2", "O3") else x) for s, x in smiles.items()}  # oxidants never partition
    n = int(g.integers(1, 9)) if shipped is None else 200
    smi = chem.distinct_smiles(g, n)
    y = {s: float("%.5f" % g.uniform(0.001, 0.5)) for s in smi}
    name = "MCM_yield"
    if settings and ws.can_set(SCRIPTS[label][0], "filename") and g.random() < 0.5:
        name = settings["filename"] = "yields_2"
    ws.write("Aerosol/f2py/Fixed_yield/%s.txt" % name, "".join("%s %.5f\n" % (s, y[s]) for s in smi))
    return smi, y


def witness(label, step, settings, what):
    w = {"driver": label, "step": step, "settings": settings}
    if label == "aerosol":
        w.update(reactions=what[0].as_text()[:40], smiles=what[1])
    else:
        w.update(yields=what[1])
    return w


def wide(g, label, spread):
    """Any settings a user may choose."""
    one = lambda name, options: (name, spread.one(name, options))
    u = lambda name, lo, hi, digits: (name, spread.number(g, name, lo, hi, digits))
    whole = lambda name, lo, hi: (name, int(spread.number(g, name, lo, hi - 1, 9) + 0.5))
    out = dict([u("temp", 245, 320, 2), u("RH", 0.01, 0.98, 3), u("hour_of_day", 0, 23.9, 2), whole("num_bins", 2, 41),
                whole("total_conc", 1, 5000), u("std", 1.15, 4, 2), u("lowersize", 0.003, 0.05, 4), u("uppersize", 0.3, 3, 3),
                u("meansize", 0.04, 0.4, 3), u("core_dissociation", 1, 4, 2), one("vp_method", VP), one("bp_method", BP),
                one("critical_method", CRIT), one("density_method", RHO), u("simulation_time", 50, 90000, 1), u("batch_step", 1, 900, 1)])
    v = lambda a, b, n: round(float(g.uniform(a, b)), n)
    out["core_mw"], out["core_density_array"] = (drivers.PerBin(v(40, 150, 2), v(100, 400, 2)),
                                                 drivers.PerBin(v(1000, 2500, 1), v(900, 2000, 1)))
    if label == "fixed":
        out.update([u("total_voc_mass", 0.5, 200, 2), u("voc_mw", 60, 300, 2)])
    else:
        out.update([u("vp_cutoff", -9, -4, 2), u(drivers.INITIAL[0], 0, 100, 2), u(drivers.INITIAL[1], 0, 100, 2)],
                   ignore_vp=bool(g.random() < 0.6))
    return {n: x for n, x in out.items() if g.random() < 0.9}


def before(ctx, label, k):
    """What a driver settles before it starts the solver, over many settings."""
    g = ctx.rng("before", label, k)
    rel, solver = SCRIPTS[label]
    ws = drivers.Workspace(ctx, "b%s%d" % (label, k))
    res = []
    runs = ctx.n(6, 15)
    spread = drivers.Spread(ctx, label, runs * ctx.n(2, 6))
    for j in range(runs):
        spread.run = k * runs + j
        settings = wide(g, label, spread)
        what = prepare(g, label, ws, settings, drivers.shipped(k)[1] if j == 1 else None, (2, None, 1, None, 3, None, None, 0)[(j + k) % 8],
                       (j + k) % 3 == 2)
        rec = ws.run(rel, solver, settings=settings, aerosol=True, dry=True)
        res.append(("before%d" % j, what, rec, witness(label, "before", settings, what)))
        if j % 2 == k % 2 and not rec["error"]:
            rec = ws.run(rel, solver, REUSE, settings=settings, aerosol=True, dry=True)
            res.append(("again%d" % j, what, rec, witness(label, "before, reused", settings, what)))
    return label, k, res


def history(ctx, label, k):
    g = ctx.rng(label, k)
    rel, solver = SCRIPTS[label]
    ws = drivers.Workspace(ctx, "%s%d" % (label, k))
    res, what = [], None
    settings = {}
    steps = ("first", "second", "reused") if ctx.thorough or label == "fixed" else ("second", "reused")
    for step in steps:
        if step != "reused":
            settings = choose(g, label) if (k + len(res)) % 2 else {}
            what = prepare(g, label, ws, settings, water=k % 2 == 0)
        try:
            rec = ws.run(rel, solver, REUSE if step == "reused" else None, aerosol=True, timeout=600, settings=settings)
        except Inconclusive as e:
            res.append((step, e, None, {"settings": settings, "what": what}))
            rec = ws.run(rel, solver, REUSE if step == "reused" else None, aerosol=True, settings=settings, dry=True)
            res.append((step + ", only set up", what, rec, witness(label, step, settings, what)))
            continue
        if rec is not None:
            rec["saved"] = saved(rec)
        w = witness(label, step, settings, what)
        res.append((step, what, rec, w))
    return label, k, res


def gather(ctx, job):
    label, k, res = job.result()
    first = None
    for step, what, rec, w in res:
        if isinstance(what, Inconclusive):
            ctx.count("unfinished_runs")
            ctx.note("an unfinished run: %s; %s" % (what, w))
            first = None
            continue
        if rec is None:
            ctx.count("edit_not_applicable")
            continue
        try:
            out = (judge_aerosol if label == "aerosol" else judge_fixed)(ctx, *what, rec, w)
        except (KeyError, IndexError, TypeError, ValueError) as e:
            ctx.violation("malformed-" + label, "%s: what reaches the solver or is saved is malformed: %s: %s" % (label, type(e).__name__, e), **w)
            out = None
        if not rec["dry"]:
            ctx.count("driver_runs_" + label)
        if step == "reused" and first is not None and out is not None:
            bad = [x for x in first if x not in out or not np.allclose(out[x], first[x], rtol=1e-3, atol=1e4)]
            if bad or len(out) != len(first):
                ctx.violation("reuse-" + label, "%s: a run with the files of the first differs for %s" % (label, bad[:4]), **w)
            ctx.count("reused_runs")
        first = None if rec["dry"] else out
        if rec["settings"].get("openMP") and not rec["dry"]:
            ctx.count("openmp_runs")
        if step.startswith("again"):
            ctx.count("reused_set_ups")
        ctx.case((label, k, step), {"driver": label, "step": step, "states": len(out or ())})


def check(ctx):
    ctx.rule = ("a case is one run of an aerosol driver script in a scratch copy, whose species, seed, properties, gas, states and saved "
                "results were compared with the references, or that reused the files of an earlier one with the same result")
    ctx.assumptions = ["the Assimulo stand-in of C17", "UManSysProp and Open Babel stand-ins that give each (method, molecule) its own number",
                       "MCM.xml, which the repository does not ship, is generated"]
    ctx.require("driver_runs_aerosol", 2)
    ctx.require("driver_runs_fixed", 3)
    ctx.require("set_ups", 4)
    ctx.require("saved_results", 4)
    ctx.require("settled_runs", 10)
    jobs = [gen.LONG.submit(before, ctx, label, k) for label in SCRIPTS for k in range(ctx.n(2, 6))]
    jobs += [gen.LONG.submit(history, ctx, "aerosol", k) for k in range(ctx.n(2, 6))]
    jobs += [gen.LONG.submit(history, ctx, "fixed", k) for k in range(ctx.n(2, 8))]
    for j in jobs:
        gather(ctx, j)
