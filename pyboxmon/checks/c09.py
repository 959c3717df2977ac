"""The generated Jacobian is the derivative of the generated tendencies."""
import numpy as np

from .. import cases, gen


def check(ctx):
    ctx.rule = ("a case is one (mechanism, rate coefficients, state) with every Jacobian entry compared with the exact "
                "derivative, and directional differences of the generated tendencies compared with the generated Jacobian")
    ctx.assumptions = ["derivative at fixed rate coefficients (RO2 in the rates is not differentiated), as PyBox defines it"]
    ctx.require("entries_nonzero", 5000)
    ctx.require("differences", 50)
    for i, (key, g, m, model) in enumerate(cases.models(ctx, "j", ctx.n(100, 600), big=False, fractional_reactants=True, rich=True, long=True)):
        b = model.bound(m)
        if b is None:
            continue
        n = model.numba(("reactants", "dydt", "jacobian"))
        forms = [("numba", n, 1e-10)]
        if key != cases.BIG and (i % 2 == 0 or key.startswith("MCM")):
            flags = gen.USER_FLAGS if i % 10 == 0 else gen.FAST_FLAGS
            forms.append(("fortran", model.fortran(("reactants", "dydt", "jacobian"), openmp=i % 4 == 2, flags=flags), 1e-6))
        w = {"case": key, "reactions": cases.describe(m)}
        for j in range(ctx.n(2, 6)):
            y = gen.concentrations(g, b.n, zeros=0.1 if j else 0.0)
            if any(c < 1 for terms in b.lhs for _, c in terms):
                y = np.maximum(y, 1e-3)  # the derivative of an order below one is unbounded at zero
            k = 10.0 ** g.uniform(-18, 0, b.m)
            want, gross = b.jacobian(k, y), b.jacobian(k, y, gross=True)
            for name, f, tol in forms:
                if name == "fortran":
                    tol += b.single(y).max(initial=0.0)
                got = f.jacobian(k, y)
                bad = ~(np.abs(got - want) <= tol * np.abs(gross))
                if bad.any():
                    r, c = map(int, np.argwhere(bad)[0])
                    name_of = {p: s for s, p in b.index.items()}
                    ctx.violation("jacobian-" + name, "%s: d(d[%s]/dt)/d[%s] is %r, the derivative is %r"
                                  % (name, name_of[r], name_of[c], float(got[r, c]), float(want[r, c])),
                                  involved=[repr(x) for x in m.reactions if name_of[c] in x.lhs][:10], **w)
                # the generated pieces against each other: central difference along a random direction
                if j == 0 and b.n <= 400:
                    d = g.choice([-1.0, 1.0], b.n) * y  # relative steps keep the difference well conditioned
                    h = 1e-5
                    hi, lo = y + h * d, y - h * d
                    diff = f.dydt(k * f.reactants(hi)) - f.dydt(k * f.reactants(lo))
                    lin = got @ (hi - lo)
                    scale = np.abs(gross) @ np.abs(hi - lo)
                    if (np.abs(diff - lin) > 1e-5 * scale + 1e-300).any():
                        r = int(np.argmax(np.abs(diff - lin) / (scale + 1e-300)))
                        ctx.violation("difference-" + name, "%s: the tendency of species %d changes by %r along a step, the Jacobian says %r"
                                      % (name, r, float(diff[r]), float(lin[r])), **w)
                    ctx.count("differences")
                ctx.count("entries", want.size)
                ctx.count("entries_nonzero", int((want != 0).sum()))
            ctx.case((key, j), {"case": key, "n": b.n})
        cases.sizes(ctx, m)
