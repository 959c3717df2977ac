"""Generated Fortran stays inside its arrays, writes all of its results and only those, and uses nothing undefined."""
import numpy as np

from .. import cases, gen, mech as mm, native, part
from .c12 import PARTS, arguments, with_cores
from .c13 import gen_dir


def examine(ctx, mem, label, src, sym, args, outs, want, scale, witness, valgrind=False, tol=1e-6):
    """want, scale: lists by output."""
    results = []
    builds = []
    if mem.prefix is not None:
        builds.append(("sanitizers", mem.CHECKED, mem.prefix))
    builds += [("init A", mem.INIT_A, ()), ("init B", mem.INIT_B, ())]
    if valgrind and mem.valgrind:
        builds.append(("valgrind", mem.PLAIN, mem.VALGRIND))
    jobs = []
    for i, (kind, flags, prefix) in enumerate(builds):
        exe = "%s/%s_%d" % (mem.dir, label, i)
        jobs.append((kind, exe, prefix, gen.POOL.submit(native.build, src, sym, exe, flags)))
    for i, (kind, exe, prefix, job) in enumerate(jobs):
        job.result()
        native.pack(exe + ".in", args, outs, fill=[np.nan, 1e300, -3.25, 7.0][i % 4])
        p, o = mem.run(exe, outs, prefix)
        bad = mem.complaint(p)
        if bad or o is None:
            ctx.violation("memory-" + sym, "%s under %s: %s" % (sym, kind, (bad or "no output")[:300]), report=bad, **witness)
            return
        for j, (got, ref, s) in enumerate(zip(o[0], want, scale)):
            if not (np.abs(got - ref) <= tol * np.abs(s) + 1e-250).all():
                q = int(np.argmax(~(np.abs(got - ref) <= tol * np.abs(s) + 1e-250)))
                ctx.violation("undefined-" + sym, "%s under %s: value %d of result %d is %r, expected %r; a value was left or used undefined"
                              % (sym, kind, q, j, float(got[q]), float(ref[q])), **witness)
                return
            ctx.count("values", got.size)
        ctx.count("runs_" + kind.split()[0])


def check(ctx):
    ctx.rule = ("a case is one generated routine run on exactly sized heap buffers under AddressSanitizer, UBSan and bounds "
                "checks, and with its results and locals preset in several ways, or under valgrind; all results must agree")
    ctx.assumptions = ["argument shapes are those the generator was given"]
    ctx.require("values", 2000)
    mem = native.Memory(ctx)
    for i in range(ctx.n(7, 63)):
        if ctx.left() < 0:
            ctx.count("cut_short")
            break
        g = ctx.rng(i)
        n = [1, 40, 12, 2, 25, 60, 480][i % 7]
        m = mm.random_mech(g, n, int(g.integers(3, max(4, min(n, 160)))))
        model = gen.Model(ctx, mm.write(m), "m%d" % i)
        b = model.bound(m)
        if b is None:
            continue
        openmp = i % 2 == 1
        with_cores([4, 8, 2, 64][i % 4], lambda: model.write_fortran(PARTS, openmp=openmp))
        env = gen.environment(g, day=True)
        y, k = gen.concentrations(g, b.n), 10.0 ** g.uniform(-3, 6, b.m)
        R = b.rates(*env)
        want = {"rates": R, "reactants": b.products(y), "dydt": b.dydt(k), "jacobian": b.jacobian(k, y).reshape(-1, order="F")}
        scale = {"rates": np.abs(R) * 100, "reactants": want["reactants"], "dydt": b.gross(k),
                 "jacobian": b.jacobian(k, y, gross=True).reshape(-1, order="F")}
        for p in PARTS:
            src, sym = gen.Fortran.FILES[p]
            args, out = arguments(p, model, env, y, k)
            examine(ctx, mem, "m%d_%s" % (i, p), "%s/%s" % (model.dir, src), sym, args, [out], [want[p]], [scale[p]],
                    {"openmp": openmp, "reactions": cases.describe(m)}, valgrind=i < ctx.n(2, 8))
            ctx.case((i, p), {"routine": sym, "openmp": openmp, "equations": n})
    for i in range(ctx.n(6, 60)):
        if ctx.left() < 0:
            ctx.count("cut_short")
            break
        g = ctx.rng("p", i)
        c = part.random_case(g, bins=[1, 2, 16, 3, 5, 8][i % 6], nc=[None, 1, None, 2, None, None][i % 6])
        P = part.Partition(gen_dir(ctx, "p%d" % i), c.num_species, c.include, c.bins)
        soa, aw, size, dy, gross = part.reference(c)
        outs = [1, c.bins, c.bins, c.total]
        examine(ctx, mem, "p%d" % i, P.src, "dydt_partition", [c.args[n] for n in part.ORDER], outs,
                [np.array([soa]), aw, size, dy], [np.array([soa]), aw, size, 20 * gross], {"case": c.describe()}, valgrind=i < ctx.n(2, 8))
        ctx.case(("p", i), c.describe())
    ctx.require("runs_init", 20)
