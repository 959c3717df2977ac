"""The initial size distribution: number, sizes and shape."""
import numpy as np

from .. import sut


def check(ctx):
    ctx.rule = "a case is one distribution whose total, bin sizes and shape were compared with the log-normal law"
    ctx.assumptions = ["at least one bin inside ten standard deviations of the median"]
    ctx.require("bins", 2000)
    mod = sut.load("Aerosol/Size_distributions.py")
    fixed = [(16, 100, 0.2, 2.2, 0.01, 1.0), (1, 50, 0.1, 1.5, 0.05, 0.5), (2, 1e4, 0.05, 1.8, 0.01, 1.0)]
    for k in range(ctx.n(4000, 20000)):
        g = ctx.rng(k)
        if k < len(fixed):
            args = fixed[k]
        else:
            n = int(g.choice([1, 2, 3, 5, 8, 16, 17, 32, 100, 500])) if k % 4 else int(g.integers(1, 400))
            m, s = float(10 ** (g.uniform(-2, 0) if k % 3 else g.uniform(-4, 2))), float(g.uniform(1.2, 3.0) if k % 5 else g.uniform(1.03, 6.0))
            lo = m * float(s ** g.uniform(-4, -0.2))
            hi = m * float(s ** g.uniform(0.2, 4))
            if k % 7 == 2:                    # only one flank of the distribution
                lo, hi = [(m * s ** g.uniform(0.1, 2), m * s ** g.uniform(2.1, 5)), (m * s ** -g.uniform(2.1, 5), m * s ** -g.uniform(0.1, 2))][k // 7 % 2]
                lo, hi = float(lo), float(hi)
            N = float(10 ** (g.uniform(-1, 5) if k % 6 else g.uniform(-6, 9)))
            args = (n, int(N) + 1 if k % 3 == 0 else N, m, s, lo, hi)
            if k % 13 == 5:                   # whole numbers
                args = (n, int(N) + 1, 2, 3, 1, int(g.integers(4, 20)))
        n, N, m, s, lo, hi = args
        w = {"args": args}
        num, x = sut.call("lognormal", mod.lognormal, *args)
        num, x = np.asarray(num, float), np.asarray(x, float)
        if num.shape != (n,) or x.shape != (n,):
            ctx.violation("shape", "%d bins asked for, %s numbers and %s sizes returned" % (n, num.shape, x.shape), **w)
            continue
        ok = ctx.expect_close("total", "particles over all bins", num.sum(), N, 1e-9, **w)
        step = np.log(hi / lo) / (n - 1) if n > 1 else 0.0
        ok &= ctx.expect_close("sizes", "bin sizes", x, lo * np.exp(step * np.arange(n)), 1e-9, **w)
        ok &= bool((num >= 0).all()) or ctx.violation("negative", "negative numbers", **w) is not None
        z = np.log(x / m) / np.log(s)
        shape = np.exp(-0.5 * z * z) / x
        ok &= ctx.expect_close("law", "numbers per bin", num, shape / shape.sum() * N, 1e-8, 1e-12 * N / n, **w)
        num2, _ = sut.call("lognormal", mod.lognormal, n, 2 * N, m, s, lo, hi)
        ctx.expect_close("linear", "twice the particles", num2, 2 * num, 1e-12, **w)
        ctx.count("bins", n)
        ctx.case(args, w)
