"""Conservation: what every reaction conserves the model conserves, and nothing absent is consumed."""
import numpy as np

from ..core import Inconclusive
from .. import cases, gen, mech as mm, sims


def invariants(m, b):
    """One exact weight vector per family that every reaction of a closed mechanism conserves."""
    fams = sorted({m.family[s] for s in b.index if s in m.family})
    W = np.zeros((b.n, len(fams)))
    for s, i in b.index.items():
        if s in m.family:
            W[i, fams.index(m.family[s])] = 1.0
    assert not W.size or abs(b.S.T @ W).max() < 1e-12, "the generator broke its own invariant"
    return W


def check(ctx):
    ctx.rule = ("a case is one (backend, mechanism, state) whose tendencies and Jacobian kept every linear invariant of "
                "the mechanism and whose absent species were not consumed; or one trajectory whose states kept them")
    ctx.require("invariants", 200)
    ctx.require("absent_species", 200)
    ctx.require("trajectory_states", 10)
    for k in range(ctx.n(160, 900)):
        if ctx.left() < 25:
            break
        g = ctx.rng(k)
        closed = k % 3 != 2
        m = mm.random_mech(g, *mm.extent(g, k % 53 == 20, (5, 60), (4, 30)), closed=closed,
                           fractional_reactants=k % 4 == 1)
        model = gen.Model(ctx, mm.write(m, mm.Style.random(g)), "c%d" % k)
        b = model.bound(m)
        if b is None:
            continue
        W = invariants(m, b)
        forms = [("numba", model.numba())]
        L = model.sparse("loss_gain")
        if W.size and L.shape == (b.n, b.m):
            L = L.toarray()
            leak = np.abs(W.T @ L)
            if (leak > 1e-11 * (np.abs(W.T) @ b.G) + 1e-250).any():
                c = int(np.argmax(leak.max(0)))
                ctx.violation("leak-sparse", "the saved loss and gain matrix: %s creates or destroys %r of an invariant"
                              % (m.reactions[c], leak[:, c].max()), reactions=cases.describe(m))
            ctx.count("matrix_columns", b.m)
        if k % 3 == 0:
            forms.append(("fortran", model.fortran(openmp=k % 2 == 0)))
        for j in range(3):
            y = gen.concentrations(g, b.n, zeros=0.25)
            env = gen.environment(g, day=True)
            for name, f in forms:
                tol = 1e-11 if name == "numba" else 1e-6
                K = np.abs(f.rates(*env))
                r = K * f.reactants(y)
                d = f.dydt(r)
                gross = b.gross(r)
                if W.size:
                    scale = np.abs(W.T) @ gross
                    leak = np.abs(W.T @ d)
                    if (leak > tol * scale + 1e-250).any():
                        c = int(np.argmax(leak - tol * scale))
                        ctx.violation("leak-" + name, "%s: an invariant changes at rate %r (turnover %r)" % (name, leak[c], scale[c]),
                                      reactions=cases.describe(m), invariant={s: W[i, c] for s, i in b.index.items()})
                    Jm = f.jacobian(K, y)
                    js = np.abs(W.T) @ np.abs(b.jacobian(K, y, gross=True))
                    if (np.abs(W.T @ Jm) > tol * js + 1e-250).any():
                        ctx.violation("leak-jacobian-" + name, name + ": the Jacobian moves a conserved quantity", reactions=cases.describe(m))
                    ctx.count("invariants", W.shape[1])
                gone = y == 0
                if (d[gone] < 0).any():
                    i = int(np.flatnonzero(gone & (d < 0))[0])
                    s = [x for x, q in b.index.items() if q == i][0]
                    ctx.violation("absent-" + name, "%s: %s is absent yet consumed at %r" % (name, s, float(d[i])), reactions=cases.describe(m))
                ctx.count("absent_species", int(gone.sum()))
                ctx.case((name, k, j), {"backend": name, "invariants": W.shape[1] if W.size else 0})
    for k in range(ctx.n(20, 90)):
        if ctx.left() < 0:
            break
        g = ctx.rng("traj", k)
        m = mm.random_mech(g, int(g.integers(5, 25)), int(g.integers(4, 14)), closed=True, rates="constant", photo=k % 2 == 0)
        model = gen.Model(ctx, mm.write(m, mm.Style.random(g)), "t%d" % k)
        b = model.bound(m)
        if b is None:
            continue
        W = invariants(m, b)
        fort = k % 2 == 1
        (model.write_fortran if fort else model.write_numba)()
        conc = {s: float(g.choice([1.0, 10.0, 30.0, 0.1])) for s in g.permutation(m.species)[: max(2, b.n // 2)]}
        conc = {str(s): c for s, c in conc.items()}
        try:
            run = sims.Run(ctx, model, b, "fortran" if fort else "numba", conc, float(g.uniform(3e4, 6e4)), 298.15, 0.5,
                           3e17, 900.0, 300.0, monitor=False)
        except Inconclusive:
            ctx.count("unfinished_runs")
            continue
        y0 = sims.initial(b, conc)
        ref = W.T @ y0
        for row in run.y:
            drift = np.abs(W.T @ row - ref)
            if (drift > 1e-5 * (np.abs(W.T) @ np.abs(row) + np.abs(W.T) @ y0) + 1.0).any():
                ctx.violation("trajectory", "a conserved quantity drifts by %r along the simulated trajectory" % float(drift.max()),
                              reactions=cases.describe(m), conc=conc)
                break
            ctx.count("trajectory_states")
        ctx.case(("trajectory", k), {"species": b.n, "invariants": W.shape[1]})
