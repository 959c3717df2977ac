"""Presentation: two spellings of one mechanism give one model."""
import numpy as np

from .. import cases, gen, mech as mm


def tendencies(model, fn, y, env, names):
    """RHS by species name through the generated code."""
    i = model.index
    v = np.zeros(model.n)
    for s in names:
        v[i[s]] = y[s]
    r = fn.rates(*env) * fn.reactants(v)
    d = fn.dydt(r)
    return {s: d[i[s]] for s in names}


def check(ctx):
    ctx.rule = ("a case is one pair (mechanism, other spelling and reaction order) whose tendencies and Jacobian were "
                "compared by species name at a random state")
    ctx.require("pairs", ctx.n(100, 500))
    for k in range(ctx.n(160, 1500)):
        if ctx.left() < 0:
            ctx.count("cut_short")
            break
        g = ctx.rng(k)
        m = mm.random_mech(g, *mm.extent(g, k % 53 == 20, (4, 50), (4, 30)), rich=True)
        fort = k % 5 == 0
        base = gen.Model(ctx, mm.write(m), "b%d" % k)
        b = base.bound(m)
        if b is None:
            continue
        perm = g.permutation(len(m))
        other = mm.Mech([m.reactions[i] for i in perm])
        alt = gen.Model(ctx, mm.write(other, mm.Style.random(g)), "a%d" % k)
        if alt.bound(other) is None:
            continue
        env = gen.environment(g, day=True)
        y = dict(zip(m.species, gen.concentrations(g, len(m.species))))
        v = np.zeros(b.n)
        for s in m.species:
            v[b.index[s]] = y[s]
        gross = b.gross(b.rates(*env) * b.products(v))
        backends = [("numba", base.numba(), alt.numba())]
        if fort:
            backends.append(("fortran", base.fortran(), alt.fortran()))
        for name, f1, f2 in backends:
            t1, t2 = (tendencies(x, f, y, env, m.species) for x, f in ((base, f1), (alt, f2)))
            for s in m.species:
                if not abs(t1[s] - t2[s]) <= 1e-9 * gross[b.index[s]] + 1e-300:
                    ctx.violation("spelling-" + name, "%s: d[%s]/dt is %r in one spelling and %r in the other"
                                  % (name, s, t1[s], t2[s]), first=base.text[:5000], second=alt.text[:5000])
                    break
            k1 = f1.rates(*env)
            v2 = np.zeros(b.n)
            for s in m.species:
                v2[alt.index[s]] = y[s]
            j1, j2 = f1.jacobian(k1, v), f2.jacobian(f2.rates(*env), v2)
            at = np.array([alt.index[s] for s in sorted(b.index, key=b.index.get)])
            scale = b.jacobian(k1, v, gross=True)
            bad = ~(np.abs(j1 - j2[np.ix_(at, at)]) <= 1e-9 * np.abs(scale) + 1e-300)
            if bad.any():
                i, j = map(int, np.argwhere(bad)[0])
                ctx.violation("spelling-jacobian-" + name, "%s: Jacobian entry (%d,%d) is %r in one spelling and %r in the other"
                              % (name, i, j, j1[i, j], j2[np.ix_(at, at)][i, j]), first=base.text[:5000], second=alt.text[:5000])
            ctx.count("pairs")
            ctx.count("tendencies", len(t1))
        ctx.case(k, {"first": base.text[:200], "second": alt.text[:200]})
