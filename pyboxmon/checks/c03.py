"""Rate coefficients of the numba model equal the expressions of the mechanism file."""
import numpy as np

from .. import cases, expr, gen, mech as mm

BACKEND = "numba"


def judge(ctx, key, m, b, got, env, rtol, delta, tag):
    want = b.rates(*env)
    slack = cases.band(b, env, delta) if delta else np.zeros_like(want)
    if got.shape != want.shape:
        ctx.violation("shape", "%d rate coefficients for %d reactions" % (got.size, want.size), case=key)
        return
    # an expression may cancel: judge against the size of what it adds up
    bad = ~(np.abs(got - want) <= rtol * np.abs(want) + slack + 1e-290)
    for i in np.flatnonzero(bad):
        size = magnitude(m.reactions[i].node, env)
        if abs(got[i] - want[i]) <= rtol * size + slack[i]:
            continue
        ctx.violation("rate-" + tag, "%s: reaction %d, rate %r at t=%r RO2=%r H2O=%r T=%r: got %r, expected %r"
                      % (tag, i + 1, m.reactions[i].rate, *env, float(got[i]), float(want[i])), case=key,
                      reaction=repr(m.reactions[i]))
        return
    ctx.count("rates_compared", want.size)
    ctx.count("rates_nonzero", int((want != 0).sum()))


def magnitude(node, env):
    """Size of an expression with every subtraction turned into an addition of magnitudes."""
    from .. import mcm
    e = mcm.environment(*env)

    def go(n):
        if isinstance(n, expr.Bin):
            if n.o in "+-":
                return go(n.l) + go(n.r)
            if n.o == "*":
                return go(n.l) * go(n.r)
            if n.o == "/":
                return go(n.l) / max(abs(n.r.ev(e)), 1e-300) * max(1.0, go(n.r) / max(abs(n.r.ev(e)), 1e-300))
            return abs(n.ev(e)) * (1 + 10 * abs(go(n.l) / max(abs(n.l.ev(e)), 1e-300) - 1) * abs(n.r.ev(e)))
        if isinstance(n, expr.Neg):
            return go(n.a)
        if isinstance(n, expr.Call) and n.n != "J":
            a = abs(n.a.ev(e))
            return abs(n.ev(e)) * max(1.0, go(n.a) / max(a, 1e-300)) if a else abs(n.ev(e))
        return abs(n.ev(e))

    return go(node)


def environments(g, count):
    out = [gen.environment(g, day=True)]
    while len(out) < count:
        out.append(gen.environment(g, day=len(out) % 3 != 2))
    return out


def check(ctx):
    ctx.rule = ("a case is one mechanism at one environment (time, RO2, H2O, temperature) whose every rate coefficient "
                "was compared with the reference evaluation of the text")
    ctx.assumptions = ["functions EXP, LOG, LOG10, dlog, dsqrt, dabs; D, E or plain exponents"]
    ctx.require("rates_compared", 5000)
    ctx.require("rates_nonzero", 4000)
    for key, g, m, model in cases.models(ctx, "r", ctx.n(480, 2400)):
        b = model.bound(m)
        if b is None:
            continue
        f = model.numba(("rates",), converted=1 + (len(m) % 2))
        for env in environments(g, ctx.n(4, 10)):
            judge(ctx, key, m, b, f.rates(*env), env, 1e-9, 1e-6, "numba")
            ctx.case((key, env), {"case": key, "env": env, "rates": [r.rate for r in m.reactions[:4]]})
