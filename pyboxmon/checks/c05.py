"""The named MCM rate coefficients have their MCM values at every temperature, in both backends."""
import numpy as np

from .. import gen, mcm, mech as mm


def check(ctx):
    ctx.rule = "a case is one (backend, temperature, water vapour, time) with every named coefficient compared"
    ctx.assumptions = ["MCM v3.2/3.3.1 generic coefficients as transcribed in pyboxmon/mcm.py; KBPPN with F=0.36 as in PyBox"]
    names = list(mcm.NAMES)
    extra = ["M*1.0E-19", "N2*1.0D-19", "O2*1.0E-18", "H2O*1.0E-17", "TEMP*1.0E-2", "RO2*1.0E-8"]
    for a in names[::3]:
        extra.append(a + "*0.5")
    exprs = names + extra + ["%s*%s" % (a, c) for a, c in zip(names[1::4], ["0.3", "0.25", "2.0", ".75"] * 12)]
    exprs += ["%s+1.0D-30" % a for a in names[2::5]]
    R = [mm.Reaction([("A%d" % (i % 7), 1.0)], [("B%d" % (i % 5), 1.0)], x) for i, x in enumerate(exprs)]
    g = ctx.rng(0)
    m = mm.Mech([R[i] for i in g.permutation(len(R))])
    model = gen.Model(ctx, mm.write(m), "names")
    b = model.bound(m)
    if b is None:
        return
    fns = [("numba", model.numba(("rates",)), 1e-9), ("fortran", model.fortran(("rates",)), 6e-6)]
    fns.append(("fortran -O3 -ffast-math", gen.Fortran(model, ("rates",), gen.USER_FLAGS), 6e-6))
    temps = list(np.linspace(200, 330, ctx.n(131, 521))) + list(g.uniform(200, 330, ctx.n(600, 3000)))
    temps += list(g.uniform(120, 450, ctx.n(200, 1000))) + list(range(200, 331, 10))          # whole numbers as users write them
    for T in temps:
        t, RO2, H2O, _ = gen.environment(g)
        env = (t, RO2, H2O, int(T) if isinstance(T, int) else float(T))
        want = b.rates(*env)
        for name, f, tol in fns:
            got = f.rates(*env)
            bad = np.flatnonzero(~(np.abs(got - want) <= tol * np.abs(want)))
            if bad.size:
                i = int(bad[0])
                ctx.violation("named-%s-%s" % (name.split()[0], m.reactions[i].rate),
                              "%s: %s at T=%r H2O=%r is %r, expected %r"
                              % (name, m.reactions[i].rate, T, H2O, float(got[i]), float(want[i])), env=env)
            ctx.count("coefficients", len(want))
            ctx.case((name, env), {"backend": name, "env": env})
    ctx.require("coefficients", 5000)
