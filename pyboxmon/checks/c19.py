"""The aerosol simulation integrates chemistry and partitioning together, and saves what it computed."""
import numpy as np

from .. import aero, cases, gen, mech as mm, sims
from ..core import Inconclusive
from .c17 import mechanism, plenty, tame


def water_name(k):
    return "H2O" if k % 2 else "".join(["H", "2O"])


def gentle(m, g):
    """Keep what the integrator meets within what its tolerances can resolve."""
    for r in m.reactions:
        r.reactants = [(s, float(int(c))) for s, c in r.reactants]
    b = m.bind({s: i for i, s in enumerate(m.species)})
    ks = np.array([b.rates(t, 1e9, 5e17, T) for t in (0.0, 43200.0, 60000.0) for T in (250.0, 262.0, 273.15, 288.15, 298.15, 308.0, 316.0)])
    for r, v, low in zip(m.reactions, ks.max(0), ks.min(0)):
        order = sum(r.lhs.values())
        if "H2O" in r.lhs:          # there is a lot of it
            w = r.lhs["H2O"]
            r.rate = "%.3e" % ((1.0 + 0.37 * len(r.products)) * {0: 1e5, 1: 1e-3}.get(order - w, 1e-14) / 4e17 ** w)
            r._node = None
        elif not np.isfinite(v) or low < 0 or v > {1: 0.5, 2: 1e-11}.get(order, 0.0):
            r.rate = mm.constant_rate(g, order)
            r._node = None
    return mm.Mech(m.reactions)


def judge(ctx, key, run, s, b, y0, start, H2O, total, batch, w):
    ends = sims.schedule(total, batch)
    if len(run.ends) != len(ends) or not np.allclose(np.cumsum(run.ends), ends, rtol=1e-9):
        ctx.violation("schedule", "batches end at %s, asked for %s" % (list(np.cumsum(run.ends))[:8], list(ends)[:8]), **w)
        return
    if not ctx.expect_close("initial", "initial state", run.mon.starts[0], y0, 1e-12, **w):
        return
    for i in range(1, len(ends)):
        if not np.array_equal(run.mon.starts[i], run.states[i - 1]):
            ctx.violation("continuity", "batch %d does not start where batch %d ended" % (i, i - 1), **w)
    y = np.asarray(run.saved("_y_output"), float)
    if y.shape != run.states.shape or not np.array_equal(y, run.states):
        ctx.violation("output", "the saved states %s are not those at the end of each batch" % (y.shape,), **w)
        return
    t = np.asarray(run.saved("_t_output"), float)
    if t.shape != ends.shape or not np.allclose(t, ends, rtol=1e-9):
        ctx.violation("times", "saved times %s, expected %s" % (list(t)[:8], list(ends)[:8]), **w)
    soa, size = np.asarray(run.saved("_SOA_output"), float), np.asarray(run.saved("_size_output"), float)
    if soa.size != len(ends) or size.shape != (len(ends), s.bins):
        ctx.violation("output", "the saved organic mass %s and sizes %s do not have one row for each of %d batches and %d bins"
                      % (soa.shape, size.shape, len(ends), s.bins), **w)
        return
    soa = soa.reshape(-1)
    for i in range(len(ends)):
        # the mass and the sizes of a state that the solver visited near the end of this batch, or of the end itself
        seen = [v for v in run.mon.seen if v[0] == i]
        seen = seen[len(seen) // 2:]
        e = s.partition(run.states[i])
        seen.append((i, None, e[0], e[2]))
        if not any(abs(v[2] - soa[i]) <= 1e-5 * abs(v[2]) + 1e-12 and (np.abs(v[3] - size[i]) <= 1e-5 * v[3]).all() for v in seen):
            ctx.violation("soa-size", "batch %d: saved organic mass %r and sizes %s; at the end of the batch they are %r and %s"
                          % (i, soa[i], size[i], e[0], e[2]), **w)
            return
        ctx.count("mass_and_sizes")
    ctx.count("mass_falls", int((np.diff(soa) < -1e-3 * soa[:-1]).sum()))
    ctx.count("mass_rises", int((np.diff(soa) > 1e-3 * soa[:-1]).sum()))
    if [int(v) for v in run.saved("include_index")] != s.include:
        ctx.violation("include", "the saved include_index is not that of the run", **w)
    water = y[:, s.gas] + y[:, s.ns:].reshape(len(ends), s.bins, s.nc)[:, :, -1].sum(1)
    first = y0[s.gas] + y0[s.ns:].reshape(s.bins, s.nc)[:, -1].sum()
    ctx.expect_close("water", "water in gas and particles", water, np.full(len(ends), first), 1e-3, **w)
    ref = aero.reference_run(s, b, run.ro2_names, y0, start, H2O, ends)
    if ref is None:
        ctx.count("reference_failed")
        return
    scale = np.abs(ref).max(0) + 1e3
    err = np.abs(y - ref) / scale
    if (y < -1e-3 * scale).any():
        ctx.count("unstable_runs")  # the integrator left the domain; every evaluation was still judged online
    elif (err > 3e-2).any():
        i, j = np.unravel_index(np.argmax(err), err.shape)
        ctx.violation("trajectory", "state %d is %r after %g s, the reference gives %r" % (j, float(y[i, j]), ends[i], float(ref[i, j])), **w)
    else:
        ctx.count("states_compared", y.size)
    ctx.count("batches", len(ends))


def check(ctx):
    ctx.rule = ("a case is one aerosol simulation, every right hand side evaluation of which was compared online with chemistry "
                "plus partitioning, and whose saved states, times, organic mass, sizes and species list were compared with the run")
    ctx.assumptions = ["the Assimulo stand-in of C17", "water is the last gas species and the last condensed one of every bin"]
    ctx.require("rhs_checked", 500)
    ctx.require("mass_and_sizes", 10)
    ctx.require("states_compared", 80)
    ctx.require("mass_falls", 1)
    ctx.require("mass_rises", 1)
    for k in range(ctx.n(14, 100)):
        if ctx.left() < 0:
            ctx.count("cut_short")
            break
        g = ctx.rng(k)
        m = tame(mechanism(g, k), g)
        m, much = plenty(ctx, gentle(m, g), k, 4)
        model = gen.Model(ctx, mm.write(m), "a%d" % k)
        b = model.bound(m)
        if b is None:
            continue
        model.write_fortran(("rates", "reactants", "dydt"), openmp=k % 3 == 1)
        bins = [4, 1, 2, 6, 3, 11, 5, 18][k % 8]
        inc = g.permutation([i for s, i in b.index.items() if s not in much])[: max(1, min(b.n - 1, int(g.integers(10, 40) if k % 7 == 5 else g.integers(1, 6))))]
        s = aero.Setup(g, b.n, bins, inc)
        if k % 6 in (1, 3):
            s.volatile(g)
        sp = [str(x) for x in g.permutation([x for x in m.species if x != "H2O"])]
        conc = {x: float(g.choice([0.1, 1.0, 18.0, 30.0])) for x in sp[: max(2, len(sp) // 2)]}
        for x in sp[len(conc): len(conc) + 2]:          # traces, down to less than a molecule per cc
            conc[x] = float(10 ** g.uniform(-11.5, -6))
        H2O = float(10 ** g.uniform(16, 17.7))
        total, batch = [(300.0, 100.0), (70.0, 30.0), (20.0, 20.0), (0.3, 0.1), (12.0, 50.0), (90.0, 45.0)][k % 6]
        start = float([43200.0, 6.0 * 3600, 17000.0, 0.0, 86400.0 + 40000.0, 86350.0, g.uniform(0, 4e5)][k % 7])
        conc.update(much)
        if k % 5 == 3:          # written without a decimal point
            conc = {x: int(round(c)) if c >= 1 else c for x, c in conc.items()}
            total, batch, start = int(np.ceil(total)), int(np.ceil(batch)), int(start)
        y0 = np.zeros(s.ns + s.bins * s.nc)
        y0[: b.n] = sims.initial(b, conc)
        y0[s.gas] = s.water_gas
        if "H2O" in b.index:
            y0[b.index["H2O"]] = s.water_gas
            ctx.count("water_in_the_mechanism")
        y0[s.ns:] = s.cond.reshape(-1)
        conc[water_name(k)] = s.water_gas
        w = {"text": model.text[:3000], "setup": s.describe(), "conc": conc, "start": start, "total": total, "batch": batch}
        try:
            run = aero.Run(ctx, model.dir, model.name, s, model, b, conc=conc, start=start, H2O=H2O, total=total, batch=batch,
                           witness={"text": model.text[:3000]})
        except Inconclusive:
            ctx.count("unfinished_runs")
            continue
        judge(ctx, k, run, s, b, y0, start, H2O, total, batch, w)
        ctx.case(k, {"setup": s.describe(), "total": total, "batch": batch, "reactions": cases.describe(m, 2)})
