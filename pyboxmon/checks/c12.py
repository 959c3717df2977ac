"""The OpenMP option changes nothing: same numbers for any core count and thread count, and no data race."""
import ctypes
import multiprocessing

import numpy as np

from .. import cases, gen, mech as mm, native
from ..core import Inconclusive

PARTS = ("rates", "reactants", "dydt", "jacobian")


def threads(n):
    ctypes.CDLL("libgomp.so.1").omp_set_num_threads(n)


def with_cores(cores, fn):
    old = multiprocessing.cpu_count
    multiprocessing.cpu_count = lambda: cores
    try:
        return fn()
    finally:
        multiprocessing.cpu_count = old


def arguments(part, b, env, y, k):
    """b: the model."""
    return {"rates": ((env[1], env[2], env[3], env[0]), b.m), "reactants": ((y,), b.m),
            "dydt": ((k,), b.n), "jacobian": ((k, y), b.n * b.n)}[part]


def call(f, part, env, y, k):
    return {"rates": lambda: f.rates(*env), "reactants": lambda: f.reactants(y), "dydt": lambda: f.dydt(k),
            "jacobian": lambda: f.jacobian(k, y)}[part]()


def size(b, part, want, y, k):
    """The turnover behind each value, against which rounding is judged."""
    if part == "dydt":
        return b.gross(k)
    if part == "jacobian":
        return np.abs(b.jacobian(k, y, gross=True))
    return np.abs(want) * (1.0 if part == "reactants" else 1e3)  # a rate may cancel and is sensitive near sunrise


def check(ctx):
    ctx.rule = ("a case is one (mechanism, core count at generation): every routine was run serially, with OpenMP on several "
                "team sizes many times over, and under the race detector, and all results were compared")
    ctx.assumptions = ["the race detector runs the generated code on a small OpenMP runtime (native/gompshim.c) whose only "
                       "ordering is what OpenMP promises; races in libgomp itself are outside"]
    ctx.require("comparisons", 500)
    ctx.require("race_runs", 15)
    det = native.Races(ctx)
    for i in range(ctx.n(9, 60)):
        if ctx.left() < 0:
            ctx.count("cut_short")
            break
        g = ctx.rng(i)
        n = int(g.integers(3, 70)) if i % 20 != 5 else 450
        m = mm.random_mech(g, n, int(g.integers(3, max(4, min(n, 150)))))
        cores = int([8, 2, 3, 4, 64, 16, 1][i % 7])
        base = gen.Model(ctx, mm.write(m), "s%d" % i)
        par = gen.Model(ctx, mm.write(m), "o%d" % i)
        b = base.bound(m)
        if b is None or par.bound(m) is None:
            continue
        fs = base.fortran(PARTS, openmp=False)
        with_cores(cores, lambda: par.write_fortran(PARTS, openmp=True))
        fo = gen.Fortran(par, PARTS, gen.USER_FLAGS if i % 4 == 0 else gen.FAST_FLAGS)
        states = [(gen.environment(g, day=j == 0), gen.concentrations(g, base.n), 10.0 ** g.uniform(-3, 6, base.m)) for j in range(3)]
        perm = np.array([par.index[s] for s in sorted(base.index, key=base.index.get)])
        assert (perm == np.arange(base.n)).all()
        w = {"cores": cores, "reactions": cases.describe(m)}
        for team in (1, 2, 3, 5, 8, 16):
            threads(team)
            for env, y, k in states:
                for part in PARTS:
                    want = call(fs, part, env, y, k)
                    for rep in range(3 if team > 1 else 1):
                        got = call(fo, part, env, y, k)
                        scale = size(b, part, want, y, k)
                        tol = 1e-11
                        if not (np.abs(got - want) <= tol * scale + 1e-290).all():
                            q = int(np.argmax(~(np.abs(got - want) <= tol * scale + 1e-290)))
                            ctx.violation("differs-" + part, "%s with OpenMP (%d cores at generation, %d threads) gives %r, without %r"
                                          % (part, cores, team, float(got.flat[q]), float(want.flat[q])), **w)
                            break
                        ctx.count("comparisons")
        threads(1)
        env, y, k = states[0]
        for part in PARTS:
            src, sym = gen.Fortran.FILES[part]
            exe = det.build("%s/%s" % (par.dir, src), sym, "g%d_%s" % (i, part))
            args, out = arguments(part, par, env, y, k)
            native.pack(exe + ".in", args, [out])
            for team in ((2, 4) if not ctx.thorough else (2, 3, 4, 8)):
                p, o = det.execute(exe, exe + ".in", [out], team)
                race = det.races(p)
                if race:
                    ctx.violation("race-" + part, "%s: data race with %d threads (%d cores at generation): %s"
                                  % (part, team, cores, race[:300]), report=race, **w)
                    break
                if p.returncode or o is None:
                    ctx.violation("crash-" + part, "%s fails with %d threads: %s" % (part, team, p.stderr[-300:]), **w)
                    break
                want = call(fs, part, env, y, k).reshape(-1, order="F")
                scale = size(b, part, want, y, k).reshape(-1, order="F")
                if not (np.abs(o[0][0] - want) <= 1e-11 * scale + 1e-290).all():
                    ctx.violation("differs-" + part, "%s under the race detector with %d threads differs from the serial result" % (part, team), **w)
                ctx.count("race_runs")
        ctx.case((i, cores), {"cores": cores, "equations": len(m)})
