"""The gas-phase simulation integrates the mechanism: online monitor at the solver boundary."""
import numpy as np

from .. import cases, gen, mech as mm, sims, sut
from ..core import Inconclusive, SutError

BACKEND = "numba"
COUNT = (18, 120)
TEMPS = 247.3, 261.0, 303.7, 281.05, 318.2


def scenario(ctx, g, m, model, b, k):
    sp = [str(s) for s in g.permutation([s for s in m.species if s not in mm.INERT])]
    conc = {s: float(g.choice([0.1, 1.0, 18.0, 30.0, 120.0])) for s in sp[: max(2, len(sp) // 2)]}
    for s in sp[len(conc): len(conc) + 2]:              # traces, down to less than a molecule per cc
        conc[s] = float(10 ** g.uniform(-11.5, -6))
    if k % 2:               # those the model prescribes, as far as the mechanism has them
        h = ctx.rng("prescribed", k)
        conc.update({s: float(h.choice([0.5, 4.0, 25.0])) for s in mm.INERT if s != "hv" and s in m.species})
    total, batch = [(300.0, 100.0), (250.0, 100.0), (60.0, 100.0), (0.3, 0.1), (120.0, 35.0), (90.0, 90.0), (200.0, 50.0)][k % 7]
    start = float([43200.0, 6.0 * 3600, 17000.0, 0.0, 86400.0 - 100.0, 71000.0, 86400.0 + 40000.0, g.uniform(0, 86400), g.uniform(0, 5e5)][k % 9])
    temp = float([298.15, 273.15, 288.15, 310.0][k % 4] if k % 3 else TEMPS[k % len(TEMPS)])
    RH = float([0.5, 0.0, 0.9, g.uniform(0.01, 1.0)][k % 4])
    if k % 5 == 4:          # written without a decimal point
        conc = {s: int(round(c)) if c >= 1 else c for s, c in conc.items()}
        total, batch = [(120, 40), (250, 100), (90, 90), (7, 2)][k // 5 % 4]
        start, temp, RH = int(start), int(temp), int(round(RH))
    return conc, start, temp, RH, float(10 ** g.uniform(16, 17.7)), total, batch


def judge(ctx, key, run, b, y0, args):
    """What a caller gets: times, states, continuity of batches, and the reference trajectory."""
    conc, start, temp, RH, H2O, total, batch = args
    ends = sims.schedule(total, batch)
    w = {"case": key, "args": args}
    mon = run.mon
    if len(mon.batches) != len(ends) or not np.allclose(np.cumsum(run.ends), ends, rtol=1e-9):
        ctx.violation("schedule", "batches end at %s, asked for %s" % (list(np.cumsum(run.ends))[:8], list(ends)[:8]), **w)
        return
    if run.returned is not None:
        t = np.asarray(run.returned[0], float)
        if t.shape != ends.shape or not np.allclose(t, ends, rtol=1e-9):
            ctx.violation("times", "returned times %s, expected %s" % (list(t)[:8], list(ends)[:8]), **w)
    if not ctx.expect_close("initial", "initial state", mon.starts[0], y0, 1e-12, **w):
        return
    for i in range(1, len(mon.starts)):
        if not np.array_equal(mon.starts[i], run.states[i - 1]):
            ctx.violation("continuity", "batch %d does not start where batch %d ended" % (i, i - 1), **w)
    y = run.y
    if y.shape != run.states.shape or not np.array_equal(y, run.states):
        ctx.violation("output", "the output matrix %s is not the state at the end of each batch" % (y.shape,), **w)
    ref = sims.reference_run(b, run.ro2_names, y0, start, temp, H2O, ends)
    if ref is None:
        ctx.count("reference_failed")
        return
    scale = np.abs(ref).max(0) + 1e3
    err = np.abs(y - ref) / scale
    if (y < -1e-3 * scale).any():
        ctx.count("unstable_runs")  # the integrator left the domain; every evaluation was still judged online
    elif (err > 2e-2).any():
        i, j = np.unravel_index(np.argmax(err), err.shape)
        s = [x for x, q in b.index.items() if q == j][0]
        ctx.violation("trajectory", "[%s] is %r after %g s, the reference gives %r" % (s, float(y[i, j]), ends[i], float(ref[i, j])), **w)
    else:
        ctx.count("states_compared", y.size)
    ctx.count("batches", len(ends))
    if any(mon.usejac):
        ctx.count("runs_with_jacobian")


def mechanism(g, k):
    n = int(g.integers(6, 26))
    m = mm.random_mech(g, n, int(g.integers(5, max(6, n // 2 + 3))), rates="mixed" if k % 2 else "constant", photo=True,
                       closed=True)
    for r in m.reactions:  # sinks and fractional yields; nothing grows without bound
        u = g.random()
        if u < 0.12:
            r.products = []
        elif u < 0.3:
            r.products = [(s, c * float(g.choice([0.5, 0.7, 0.125]))) for s, c in r.products]
        elif u < 0.36:
            r.products = r.products + [(str(g.choice(mm.SPECIAL)), 1.0)]
    return mm.Mech(m.reactions)


def tame(m, g):
    """Keep third order and fast first order reactions integrable, and let nothing run backwards."""
    b = m.bind({s: i for i, s in enumerate(m.species)})
    low = np.min([b.rates(43200.0, 1e9, 3e17, T) for T in TEMPS + (270.0, 273.15, 288.15, 298.15, 310.0)], axis=0)
    for r, v in zip(m.reactions, low):
        order = sum(c for s, c in r.reactants if s != "hv")
        if not v >= 0 or order > 2 or ("**" in r.rate and order != 1):
            r.rate = mm.constant_rate(g, order)
            r._node = None
    return mm.Mech(m.reactions)


def plenty(ctx, m, k, every=3):
    """With a gas of which there is far more than of the others, up to what nitrogen has: the mechanism and {species: ppb}."""
    if k % every != 1:
        return m, {}
    g = ctx.rng("plenty", k)
    c = float(10 ** (g.uniform(6, 8.9) if k // every % 2 else g.uniform(2.2, 6.5)))
    a, b = [str(s) for s in g.permutation([s for s in m.species if s not in mm.INERT])[:2]]
    R = mm.Reaction
    ctx.count("plentiful_gases")
    return mm.Mech(m.reactions + [R([("XPLENTY", 1.0)], [(b, 1.0)], "%.3e" % (g.uniform(1, 9) * 1e-4 / c)),
                                  R([("XPLENTY", 1.0), (a, 1.0)], [("XPLENTY", 1.0), (b, 1.0)], "%.3e" % (g.uniform(1, 9) * 1e-4 / (c * 2.55e10)))]), \
        {"XPLENTY": c}


def check(ctx, backend=BACKEND):
    ctx.rule = ("a case is one simulation, every right hand side and Jacobian evaluation of which was compared online with "
                "the reference, and whose output was compared with the states handed over by the solver and with a reference run")
    ctx.assumptions = ["Assimulo is not installed: a stand-in with its interface integrates with scipy; the tolerances "
                       "and the integrator are not PyBox's"]
    ctx.require("rhs_checked", 500)
    ctx.require("states_compared", 60)
    ctx.require("plentiful_gases", 2)
    fort = backend == "fortran"
    for k in range(ctx.n(*COUNT)):
        if ctx.left() < 0:
            ctx.count("cut_short")
            break
        g = ctx.rng(k)
        m, much = plenty(ctx, tame(mechanism(g, k), g), k)
        model = gen.Model(ctx, mm.write(m, mm.Style.random(g)), "s%d" % k)
        b = model.bound(m)
        if b is None:
            continue
        (model.write_fortran(openmp=k % 3 == 1) if fort else model.write_numba())
        args = scenario(ctx, g, m, model, b, k)
        args[0].update(much)
        y0 = sims.initial(b, args[0])
        try:
            run = sims.Run(ctx, model, b, backend, *args, witness={"text": model.text[:4000]})
        except Inconclusive:
            ctx.count("unfinished_runs")
            continue
        judge(ctx, k, run, b, y0, args)
        ctx.case(k, {"args": args[1:], "species": b.n, "reactions": cases.describe(m, 3)})
    if not fort:
        jitted(ctx)
    shipped(ctx, backend)
    overnight(ctx, backend)


NIGHTS = (75600.0, 86400.0, 86400.0), (73000.0, 100000.0, 50000.0), (2 * 86400.0 + 79000.0, 82000.0, 82000.0)


def dark(g):
    """Nothing happens in it without the sun."""
    R = mm.Reaction
    a, b, c, d, e = [str(s) for s in g.permutation(["NO2", "NO", "O3", "HCHO", "CH3O2", "PINONIC"])[:5]]
    j = [int(x) for x in g.permutation([1, 4, 7, 8, 11, 12, 22, 31, 33, 41])[:2]]
    rs = [R([(a, 1.0), ("hv", 1.0)], [(b, 1.0), (c, 1.0)], "%g*J(%d)" % (g.uniform(0.2, 2), j[0])),
          R([(c, 1.0), ("hv", 1.0)], [(d, 0.5)], "%g*J(%d)" % (g.uniform(0.2, 2), j[1])),
          R([(b, 1.0), (c, 1.0)], [(e, 1.0)], "%.2fE-16*EXP(-%d/TEMP)" % (g.uniform(1, 9), int(g.integers(100, 500))))]
    return mm.Mech([rs[i] for i in g.permutation(3)]), {a: float(g.choice([5.0, 30.0]))}


def overnight(ctx, backend):
    """A run from one evening to the next, with nothing to do until the sun comes up."""
    for k in range(ctx.n(2, 9)):
        g = ctx.rng("night", k)
        m, conc = dark(g)
        model = gen.Model(ctx, mm.write(m), "n%d" % k)
        b = model.bound(m)
        if b is None:
            continue
        (model.write_fortran if backend == "fortran" else model.write_numba)()
        start, total, batch = NIGHTS[k % 3]
        args = conc, start, 288.15, 0.5, 2e17, total, batch
        try:
            run = sims.Run(ctx, model, b, backend, *args)
        except Inconclusive:
            ctx.count("unfinished_runs")
            continue
        judge(ctx, "night %d" % k, run, b, sims.initial(b, conc), args)
        ctx.count("nights")
        ctx.case(("night", k))
    ctx.require("nights", 1)


def shipped(ctx, backend):
    """A stretch of the shipped mechanism with its own initial conditions."""
    name, path = [x for x in mm.shipped() if x[0] == "MCM_APINENE"][0]
    m = mm.load_shipped(path)
    model = gen.Model(ctx, cases.shipped_text(path), "ship", name=name)
    b = model.bound(m)
    if b is None:
        return
    (model.write_fortran if backend == "fortran" else model.write_numba)()
    args = ({"O3": 18.0, "APINENE": 30.0}, 43200.0, 288.15, 0.5, 2e17, 30.0 if not ctx.thorough else 300.0, 15.0 if not ctx.thorough else 100.0)
    try:
        run = sims.Run(ctx, model, b, backend, *args)
    except Inconclusive:
        ctx.count("unfinished_runs")
        return
    judge(ctx, name, run, b, sims.initial(b, args[0]), args)
    ctx.case(name, {"mechanism": name, "args": args[1:]})


JIT = r"""
import json, sys
import numpy as np
sys.path.insert(0, '.')
from Rate_coefficients_numba import evaluate_rates
from Reactants_conc_numba import reactants
from Loss_Gain_numba import dydt
from Jacobian_numba import jacobian
z = np.load('jit_in.npz')
m, n = int(z['m']), int(z['n'])
out = {}
for k, (e, y) in enumerate(zip(z['env'], z['y'])):
    e = [int(v) if v == int(v) else float(v) for v in e]        # as a user may write them
    r = evaluate_rates(e[0], e[1], e[2], e[3], np.zeros(m), np.zeros(63))
    p = reactants(y, m, np.zeros(m))
    out['r%d' % k], out['p%d' % k] = r, p
    out['d%d' % k] = dydt(np.zeros(n), p * r)
    out['j%d' % k] = jacobian(r, y, np.zeros((n, n)))
np.savez('jit_out.npz', **out)
"""


def jitted(ctx):
    """The generated modules compiled by numba for real, in a fresh interpreter."""
    import os
    g = ctx.rng("jit")
    m = mm.random_mech(g, ctx.n(20, 40), 12)
    model = gen.Model(ctx, mm.write(m), "jit")
    b = model.bound(m)
    if b is None:
        return
    model.write_numba()
    envs = [gen.environment(g, day=True) for _ in range(4)] + [gen.environment(g) for _ in range(ctx.n(4, 12))]
    envs += [(0, 1e9, 2e17, 298), (50000, 0, 3e17, 273), (86400 * 3 + 40000, 1e8, 1e17, 300)]
    ys = [gen.concentrations(g, b.n) for _ in envs]
    np.savez(os.path.join(model.dir, "jit_in.npz"), m=b.m, n=b.n, env=np.array(envs), y=np.array(ys))
    p = gen.run_python(JIT, model.dir, jit=True)
    if p.returncode:
        ctx.violation("numba-compile", "the generated modules do not compile or run under numba: " + p.stderr[-800:], text=model.text)
        return
    z = np.load(os.path.join(model.dir, "jit_out.npz"))
    for k, (env, y) in enumerate(zip(envs, ys)):
        K = b.rates(*env)
        r = K * b.products(y)
        ctx.expect_close("numba-rates", "compiled rates", z["r%d" % k], K, 1e-8, 1e-20)
        ctx.expect_close("numba-products", "compiled products", z["p%d" % k], b.products(y), 1e-10)
        if not (np.abs(z["d%d" % k] - b.dydt(r)) <= 1e-8 * b.gross(r) + 1e-250).all():
            ctx.violation("numba-tendencies", "compiled tendencies are not S r")
        if not (np.abs(z["j%d" % k] - b.jacobian(K, y)) <= 1e-8 * b.jacobian(K, y, gross=True) + 1e-250).all():
            ctx.violation("numba-jacobian", "compiled Jacobian is not the derivative")
        ctx.count("jit_states")
    ctx.case("jit")
    ctx.require("jit_states", 8)
