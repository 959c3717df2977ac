"""One routine that holds a generated model against the reference in every respect."""
import numpy as np

from . import gen, mech as mm
from .checks.c03 import judge as judge_rates


def states(g, b, count=2):
    return [(gen.environment(g, day=j == 0), gen.concentrations(g, b.n)) for j in range(count)]


def whole(ctx, key, m, b, f, at, fortran, label, rtol=None):
    """f: rates/reactants/dydt/jacobian callables, numba or Fortran."""
    n0 = len(ctx.violations)
    tol = rtol or (2e-5 if fortran else 1e-9)
    for env, y in at:
        judge_rates(ctx, key, m, b, f.rates(*env), env, tol, 0.05 if fortran else 1e-6, label)
        K, p = b.rates(*env), b.products(y)
        ctx.expect_close("products-" + label, "%s: reactant products" % label, f.reactants(y), p, 1e-5 if fortran else 1e-9, 1e-280, case=key)
        r = K * p
        d = f.dydt(r)
        if d.shape != (b.n,) or not (np.abs(d - b.dydt(r)) <= 1e-6 * b.gross(r) + 1e-250).all():
            ctx.violation("tendencies-" + label, "%s: the tendencies are not those of the mechanism" % label, case=key, reactions=m.as_text()[:20])
        j = f.jacobian(K, y)
        if not (np.abs(j - b.jacobian(K, y)) <= (2e-5 if fortran else 1e-8) * b.jacobian(K, y, gross=True) + 1e-250).all():
            ctx.violation("jacobian-" + label, "%s: the Jacobian is not that of the mechanism" % label, case=key, reactions=m.as_text()[:20])
        ctx.count("states_judged")
    return len(ctx.violations) == n0


def ro2(ctx, key, model, b):
    """The RO2 indices select the peroxy radicals of this mechanism."""
    idx = np.asarray(model.ro2_indices())
    want = sorted(b.index[s] for s in mm.ro2_reference() & set(b.index))
    if sorted(int(i) for i in idx) != want:
        ctx.violation("ro2", "RO2 indices %s, expected %s" % (sorted(map(int, idx))[:10], want[:10]), case=key)
        return False
    ctx.count("ro2_sets")
    return True
