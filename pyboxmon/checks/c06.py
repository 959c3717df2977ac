"""Photolysis: zero at night, never negative, a 24 h period, and the MCM parameterisation by day."""
import numpy as np

from .. import gen, mcm, mech as mm


def check(ctx):
    ctx.rule = "a case is one (backend, time of day) with every J value compared and checked for sign, night and period"
    ctx.assumptions = ["solar geometry of PyBox: day 150, 51.51 N, 0.13; an index (up to 61) without parameterisation is zero"]
    idx = sorted(mcm.PHOTO) + [9, 10, 25, 36, 40, 50, 60]
    R = [mm.Reaction([("A%d" % (i % 7), 1.0)], [("B", 1.0)], "J(%d)" % k) for i, k in enumerate(idx)]
    R += [mm.Reaction([("A1", 1.0)], [("C", 1.0)], x) for x in
          ("J(4)*0.5", "0.25*J(1)", "J(41)+J(22)", "J(34)+J(35)*0.2", "J(2)+J(2)", "J(11)*2.0D0+J(12)")]
    m = mm.Mech(R)
    model = gen.Model(ctx, mm.write(m), "J")
    b = model.bound(m)
    if b is None:
        return
    g = ctx.rng(0)
    fns = [("numba", model.numba(("rates",)), 1e-9, 1e-6), ("fortran", model.fortran(("rates",)), 2e-6, 0.05),
           ("fortran -O3 -ffast-math", gen.Fortran(model, ("rates",), gen.USER_FLAGS), 2e-6, 0.05)]
    day = 86400.0
    times = [0.0, day / 2, day, 1.0, day - 1.0] + list(np.linspace(0, day, ctx.n(481, 2881)))
    times += list(g.uniform(0, 4 * day, ctx.n(1500, 6000))) + list(g.uniform(4 * day, 40 * day, ctx.n(500, 2000)))
    # around sunrise and sunset
    c = [mcm.cos_zenith(t) for t in range(0, 86400, 60)]
    for k in np.flatnonzero(np.diff(np.sign(c))):
        times += list(60.0 * k + g.uniform(-600, 600, ctx.n(60, 300)))
    for t in times:
        t = float(max(t, 0.0))
        env = (t, 1e8, 1e17, 290.0)
        want = b.rates(*env)
        mid = mcm.cos_zenith(t)
        for name, f, tol, delta in fns:
            got = f.rates(*env)
            lag = f.rates(t + day, *env[1:])
            slack = np.abs(b.rates(t + delta, *env[1:]) - b.rates(max(t - delta, 0.0), *env[1:])) + 1e-290
            short = name.split()[0]
            for what, bad in (("negative", got < 0), ("not-finite", ~np.isfinite(got)),
                              ("night", (got != 0) if mid < -1e-5 else np.zeros_like(got, bool)),
                              ("period", np.abs(lag - got) > tol * np.abs(got) + 2 * slack),
                              ("value", ~(np.abs(got - want) <= tol * np.abs(want) + slack))):
                hit = np.flatnonzero(bad)
                if hit.size:
                    i = int(hit[0])
                    ctx.violation("J-%s-%s" % (what, short), "%s: %s at t=%r s is %r (a day later %r), expected %r"
                                  % (name, R[i].rate, t, float(got[i]), float(lag[i]), float(want[i])))
            ctx.count("values", len(want))
            ctx.count("night_values" if mid < 0 else "day_values", len(want))
            ctx.case((name, t), {"backend": name, "t": t, "cos_zenith": mid})
    ctx.require("night_values", 1000)
    ctx.require("day_values", 5000)
