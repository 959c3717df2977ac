"""The figures that are shown, against the results they are drawn from."""
import os

import numpy as np

from .. import aero, drivers, figures, gen, mech as mm, part, sims, sut
from ..core import Inconclusive


LENGTHS = [(300.0, 100.0), (70.0, 30.0), (7.5, 1.1), (20.0, 2.5)]


def stack(ctx, label, axes, y, gas, bins, mw, w):
    """One stacked figure against the state y with gas gas-phase entries before the bins."""
    nc = len(mw)
    mass = np.maximum(np.asarray(y, float)[gas:].reshape(bins, nc), 0.0) / part.NA * mw * 1e12
    organic = mass[:, :-1]
    total = organic.sum()
    got = figures.number(axes["title"])
    if got is None or not abs(got - total) <= 0.00501 + 1e-6 * total:
        ctx.violation("title", "%s: the figure is titled %r, the organic mass is %.4f" % (label, axes["title"], total), **w)
        return False
    ctx.count("titles")
    columns = sorted({round(b[0], 6) for b in axes["bars"]})
    if nc > 1 and len(columns) != bins:
        ctx.violation("columns", "%s: bars in %d places for %d size bins" % (label, len(columns), bins), **w)
        return False
    for k, x in enumerate(columns):
        if organic[k].sum() <= 0:
            continue        # no shares of nothing
        share = organic[k] / organic[k].sum()
        here = [b for b in axes["bars"] if abs(b[0] - x) < 1e-6]
        low = np.array([b[1] for b in here])
        high = np.array([b[2] for b in here])
        if len(here) != nc - 1 or not np.allclose(np.sort(high), np.sort(share), rtol=1e-6, atol=1e-9):
            ctx.violation("shares", "%s: the bars of size bin %d have heights %s, the shares are %s"
                          % (label, k, np.sort(high)[::-1][:6], np.sort(share)[::-1][:6]), **w)
            return False
        order = np.lexsort((low + high, low))
        if not np.allclose(low[order], np.append(0.0, np.cumsum(high[order])[:-1]), atol=1e-6):
            ctx.violation("stacked", "%s: the bars of size bin %d are not on top of one another" % (label, k), **w)
            return False
        ctx.count("shares", nc - 1)
    # a compound looks the same in every bin
    filled = [k for k in range(bins) if organic[k].sum() > 0]
    if len(filled) > 1 and nc > 2:
        share = organic[filled] / organic[filled].sum(1)[:, None]
        looks = {}
        for b in axes["bars"]:
            k = columns.index(round(b[0], 6))
            if k in filled:
                looks.setdefault(b[3], {}).setdefault(filled.index(k), []).append(b[2])
        if len(looks) == nc - 1:
            left = [share[:, i] for i in range(nc - 1)]
            for per in looks.values():
                v = np.array([per.get(q, [np.nan])[0] for q in range(len(filled))])
                d = [np.abs(v - z).max() for z in left]
                if not np.nanmin(np.append(d, np.inf)) < 1e-6:
                    ctx.violation("colours", "%s: the bars of one colour are shares of different compounds" % label, **w)
                    return False
                left.pop(int(np.nanargmin(d)))
            ctx.count("compounds_followed", nc - 1)
    return True


def stacks(ctx, label, shown, states, gas, bins, mw, w):
    if len(shown) != len(states) or any(len(f) != 1 for f in shown):
        ctx.violation("figures", "%s: %d figures are shown of %d saved times" % (label, len(shown), len(states)), **w)
        return
    for f, y in zip(shown, states):
        if not stack(ctx, label, f[0], y, gas, bins, mw, w):
            return
    ctx.count("figures", len(shown))


def series(ctx, label, axes, t, want, w):
    """Labelled lines against {label: values}."""
    lines = {li[2]: li for li in axes["lines"]}
    for name, v in want.items():
        if name not in lines:
            ctx.violation("line", "%s: no line is labelled %s" % (label, name), **w)
            return
        x, y, _ = lines[name]
        with np.errstate(all="ignore"):
            v = np.asarray(v, float)
            y = np.log10(y) if axes["scale"] == "log" else y
        if x.shape != np.shape(t) or not np.allclose(x, t, rtol=1e-9):
            ctx.violation("times", "%s: the line %s is drawn at %s, the results are at %s" % (label, name, list(x)[:6], list(t)[:6]), **w)
            return
        if not np.allclose(y, v, rtol=1e-9, atol=1e-9, equal_nan=True):
            ctx.violation("values", "%s: the line %s shows %s, the results are %s" % (label, name, list(y)[:6], list(v)[:6]), **w)
            return
        ctx.count("points", len(v))
    ctx.count("figures")


def logs(states, index):
    with np.errstate(all="ignore"):
        return {s: np.log10(np.asarray(states)[:, index[s]]) for s in ("APINENE", "PINONIC")}


def drawn(ctx):
    """The plotting routine on states of all shapes."""
    P = sut.load("Aerosol/f2py/Fixed_yield/Plotting.py", name="sut_stacked")
    for k in range(ctx.n(60, 600)):
        g = ctx.rng("drawn", k)
        bins, nc = int(g.integers(1, 9)), int(g.integers(2, 9)) if k % 7 else int(g.integers(9, 25))
        gas = nc + (0 if k % 2 else int(g.integers(1, 9)))
        times = int(g.integers(1, 4))
        mw = np.append(g.uniform(50, 400, nc - 1), 18.0)
        y = 10 ** g.uniform(5, 13, (times, gas + nc * bins))
        y[g.random(y.shape) < 0.1] = 0.0
        y[g.random(y.shape) < 0.05] *= -1e-6        # what an integrator may leave behind
        if k % 5 == 4:
            y[0, gas: gas + nc] = 0.0               # an empty bin
        w = {"bins": bins, "condensed": nc, "gas": gas, "times": times, "mw": mw, "states": y}
        with figures.shown() as seen, np.errstate(all="ignore"):
            sut.call("stacked_bar", P.stacked_bar, [100.0 * (i + 1) for i in range(times)], y.copy(), nc, bins, mw.copy(), part.NA)
        stacks(ctx, "stacked_bar", seen, y, gas, bins, mw, w)
        ctx.case(("drawn", k), {"bins": bins, "condensed": nc, "gas": gas, "times": times})


def fixed(ctx):
    for k in range(ctx.n(12, 80)):
        g = ctx.rng("fixed", k)
        n = int(g.integers(2, 7))
        s = aero.Setup(g, n, [3, 1, 5, 2, 8][k % 5], range(n) if k % 3 == 2 else g.permutation(n)[: int(g.integers(1, n))])
        d = os.path.join(ctx.scratch, "x%d" % k)
        os.makedirs(d, exist_ok=True)
        gas0 = list(g.uniform(0, 20, n) * sims.CFACTOR) + [s.water_gas]
        total, batch = [(300.0, 100.0), (250.0, 100.0), (30.0, 30.0)][k % 3]
        w = {"setup": s.describe(), "gas": gas0, "total": total, "batch": batch}
        try:
            run = aero.Run(ctx, d, "yield", s, gas0=gas0, total=total, batch=batch, monitor=False, save=bool(k % 2), label="fixed yield", witness=w)
        except Inconclusive:
            ctx.count("unfinished_runs")
            continue
        stacks(ctx, "fixed yield run", run.figures, run.states, s.ns, s.bins, s.mw, w)
        ctx.count("excluded_species", s.ns - s.nc)
        ctx.case(("fixed", k), w)


def aerosol(ctx):
    from .c19 import gentle
    for k in range(ctx.n(12, 60)):
        g = ctx.rng("aerosol", k)
        m = gentle(mm.random_mech(g, 6, 5, closed=True, special=False), g)
        model = gen.Model(ctx, mm.write(m), "a%d" % k)
        b = model.bound(m)
        if b is None:
            continue
        model.write_fortran(("rates", "reactants", "dydt"))
        s = aero.Setup(g, b.n, int(g.integers(1, 5)), g.permutation(b.n)[: int(g.integers(1, b.n + 1))])
        total, batch = LENGTHS[k % len(LENGTHS)]
        conc = {x: float(g.uniform(0.1, 20)) for x in m.species[:3]}
        if k % 3 == 2:          # organics that leave the particles
            s.logp[:-1] = g.uniform(-8.5, -6, s.nc - 1)
            s.psat[:-1] = 10.0 ** s.logp[:-1]
            s.cond[:, :-1] = s.core[:, None] * g.uniform(0.01, 0.2, (s.bins, s.nc - 1))
            conc = {x: 1e-6 for x in m.species[:3]}
        conc["H2O"] = s.water_gas
        w = {"setup": s.describe(), "reactions": m.as_text(), "conc": conc, "total": total, "batch": batch}
        try:
            run = aero.Run(ctx, model.dir, model.name, s, model, b, conc=conc, total=total, batch=batch, monitor=False, plot=True, witness=w)
        except Inconclusive:
            ctx.count("unfinished_runs")
            continue
        if len(run.figures) != 1 or len(run.figures[0]) != 1 or len(run.figures[0][0]["lines"]) != 1:
            ctx.violation("mass-figure", "aerosol run: %d figures are shown, one with the organic mass was asked for" % len(run.figures), **w)
            continue
        ax = run.figures[0][0]
        mass = np.asarray(run.saved("_SOA_output"), float).reshape(-1)
        ctx.count("masses_falling", int((np.diff(mass) < -1e-6 * mass[:-1]).sum()))
        series(ctx, "aerosol run", dict(ax, lines=[ax["lines"][0][:2] + ("mass",)]), np.cumsum(run.ends), {"mass": mass}, w)
        ctx.case(("aerosol", k), {"bins": s.bins, "batches": len(run.ends)})


def gas(ctx):
    for k in range(ctx.n(8, 40)):
        g = ctx.rng("gas", k)
        m = drivers.mechanism(g, int(g.integers(2, 10)))
        model = gen.Model(ctx, mm.write(m), "g%d" % k)
        b = model.bound(m)
        if b is None:
            continue
        model.write_fortran()
        total, batch = LENGTHS[k % len(LENGTHS)]
        w = {"reactions": m.as_text(), "total": total, "batch": batch}
        try:
            run = sims.Run(ctx, model, b, "fortran", {"O3": 18.0, "APINENE": 30.0}, 40000.0, 298.15, 0.5, 3e17, total, batch, monitor=False, witness=w)
        except Inconclusive:
            ctx.count("unfinished_runs")
            continue
        if len(run.figures) != 1 or len(run.figures[0]) != 1:
            ctx.violation("gas-figure", "Fortran gas run: %d figures are shown" % len(run.figures), **w)
            continue
        series(ctx, "Fortran gas run", run.figures[0][0], np.cumsum(run.ends), logs(run.states, b.index), w)
        ctx.case(("gas", k), {"batches": len(run.ends)})


def script(ctx, k):
    g = ctx.rng("script", k)
    ws = drivers.Workspace(ctx, "s%d" % k)
    m = drivers.mechanism(g, int(g.integers(3, 10)))
    ws.mechanism("MCM_APINENE", mm.write(m))
    settings = {"simulation_time": (900.0, 70.9)[k % 2], "batch_step": (100.0, 12.3)[k % 2]}
    w = {"reactions": m.as_text(), "settings": settings}
    return w, ws.run("Gas_simulation.py", "ODE_solver", settings=settings)


def scripted(ctx, jobs):
    for k, j in enumerate(jobs):
        try:
            w, rec = j.result()
        except Inconclusive:
            ctx.count("unfinished_runs")
            continue
        if rec["error"]:
            ctx.violation("driver", "the numba driver fails: %s" % rec["error"][-700:], **w)
            continue
        shown = rec["figures"]
        if len(shown) != 1 or len(shown[0]) != 1:
            ctx.violation("driver-figure", "the numba driver shows %d figures" % len(shown), **w)
            continue
        index = rec["input"]["species_dict2array"]
        states = np.array([b[3] for b in rec["batches"]])
        series(ctx, "numba driver", shown[0][0], np.cumsum([b[1] - b[0] for b in rec["batches"]]), logs(states, index), w)
        ctx.case(("script", k), w["settings"])


def check(ctx):
    ctx.rule = "a case is one call of the plotting routine, or one run, whose figures were read back when shown and compared with its states"
    ctx.assumptions = ["the Assimulo stand-in of C17", "matplotlib draws what its artists say"]
    ctx.require("figures", 40)
    ctx.require("shares", 500)
    ctx.require("points", 20)
    ctx.require("excluded_species", 2)
    ctx.require("masses_falling", 2)
    jobs = [gen.LONG.submit(script, ctx, k) for k in range(ctx.n(2, 6))]
    drawn(ctx)
    fixed(ctx)
    aerosol(ctx)
    gas(ctx)
    scripted(ctx, jobs)
