"""Tendencies are net stoichiometry times reaction rates, in every generated form."""
import numpy as np

from .. import cases, gen


def check(ctx):
    ctx.rule = "a case is one (mechanism, vector of reaction rates) with the tendency of every species compared in every form"
    ctx.assumptions = ["AIR, H2O, O2 and hv are held fixed by PyBox and have tendency zero"]
    ctx.require("tendencies", 8000)
    ctx.require("catalyst", 50)
    for i, (key, g, m, model) in enumerate(cases.models(ctx, "t", ctx.n(160, 900), rich=True, wide=True, long=True)):
        b = model.bound(m)
        if b is None:
            continue
        forms = [("numba", model.numba(("dydt",)).dydt, 1e-11)]
        L = model.sparse("loss_gain")
        w = {"case": key, "reactions": cases.describe(m)}
        if L.shape != (b.n, b.m):
            ctx.violation("sparse-shape", "loss-gain matrix is %s for %d species and %d reactions" % (L.shape, b.n, b.m), **w)
        else:
            live = np.ones(b.n, bool)
            for s in ("AIR", "H2O", "O2"):
                if s in b.index:
                    live[b.index[s]] = False
            forms.append(("sparse", lambda r: np.where(live, L @ r, 0.0), 1e-11))
        if key != cases.BIG and (i % 2 == 0 or key.startswith("MCM")):
            flags = gen.USER_FLAGS if i % 10 == 0 else gen.FAST_FLAGS
            forms.append(("fortran", model.fortran(("dydt",), openmp=i % 4 == 2, flags=flags).dydt, 1e-6))
        for j in range(ctx.n(3, 10)):
            r = 10.0 ** g.uniform(-3, 12, b.m)
            if j % 3 == 1:
                r = r * g.choice([-1.0, 1.0], b.m)
            if j % 3 == 2:  # one reaction at a time shows a single coefficient
                k = int(g.integers(b.m))
                r = np.zeros(b.m)
                r[k] = 1.0
            want, gross = b.dydt(r), b.gross(r)
            for name, f, tol in forms:
                got = np.asarray(f(r), float)
                if got.shape != want.shape:
                    ctx.violation("tendency-" + name, "%s: %d tendencies for %d species" % (name, got.size, b.n), **w)
                    continue
                bad = np.flatnonzero(~(np.abs(got - want) <= tol * gross))
                if bad.size:
                    s = [x for x, p in b.index.items() if p == bad[0]][0]
                    ctx.violation("tendency-" + name, "%s: d[%s]/dt is %r, stoichiometry gives %r"
                                  % (name, s, float(got[bad[0]]), float(want[bad[0]])),
                                  involved=[repr(x) for x in m.reactions if s in x.lhs or s in x.rhs][:10], **w)
                ctx.count("tendencies", b.n)
            ctx.case((key, j), {"case": key, "rates": r[:4], "tendencies": want[:4]})
        cases.sizes(ctx, m)
