"""Rate coefficients of the Fortran model equal the expressions of the file and those of the numba model."""
import numpy as np

from .. import cases, gen
from .c03 import environments, judge


def check(ctx):
    ctx.rule = ("a case is one mechanism at one environment whose every Fortran rate coefficient was compared with the "
                "reference evaluation and with the numba value")
    ctx.assumptions = ["literals are single precision in the generated Fortran: 2e-5 relative, and 0.05 s of solar clock",
                       "rate constants lie between 1e-37 and 1e38"]
    ctx.require("rates_compared", 4000)
    for i, (key, g, m, model) in enumerate(cases.models(ctx, "f", ctx.n(90, 600), big=ctx.thorough)):
        b = model.bound(m)
        if b is None:
            continue
        user = i % 10 == 0 or key.startswith("MCM") and ctx.thorough
        f = model.fortran(("rates",), converted=1 + i % 2, openmp=i % 7 == 3,
                          flags=gen.USER_FLAGS if user else gen.FAST_FLAGS)
        n = model.numba(("rates",))
        for env in environments(g, ctx.n(4, 10)):
            got = f.rates(*env)
            judge(ctx, key, m, b, got, env, 2e-5, 0.05, "fortran")
            judge(ctx, key, m, b, n.rates(*env), env, 2e-5, 0.05, "numba")
            ctx.case((key, env), {"case": key, "env": env})
    if ctx.left() > 0:
        # the real tool chain, command line as in the drivers
        g, m, text = cases.random_case(ctx, "f2py", 0, most=30)
        model = gen.Model(ctx, text, "f2py")
        b = model.bound(m)
        if b is not None:
            model.write_fortran(("rates",))
            gen.f2py_build(model.dir, "rate_coeff_f2py", "Rate_coefficients.f90")
            envs = environments(g, 4)
            code = ("import numpy, json\nfrom rate_coeff_f2py import evaluate_rates\n"
                    "print(json.dumps([evaluate_rates(e[1],e[2],e[3],e[0]).tolist() for e in %r]))" % (envs,))
            p = gen.run_python(code, model.dir)
            if p.returncode:
                ctx.violation("f2py-call", "the compiled rate module fails: " + p.stderr[-500:])
            else:
                import json
                for env, row in zip(envs, json.loads(p.stdout)):
                    judge(ctx, "f2py", m, b, np.array(row), env, 2e-5, 0.05, "f2py")
                    ctx.count("f2py_environments")
                    ctx.case(("f2py", env))
