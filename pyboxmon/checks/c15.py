"""Partitioning is free of data races and gives the same answer for any number of threads."""
import numpy as np

from .. import gen, native, part
from .c12 import threads
from .c13 import gen_dir


def check(ctx):
    ctx.rule = ("a case is one partitioning state run on several team sizes many times over and under the race detector, "
                "every result compared with the single-threaded one")
    ctx.assumptions = ["the race detector runs the generated code on native/gompshim.c, whose only ordering is what OpenMP promises"]
    ctx.require("comparisons", 150)
    ctx.require("race_runs", 10)
    det = native.Races(ctx)
    for k in range(ctx.n(20, 80)):
        if ctx.left() < 0:
            ctx.count("cut_short")
            break
        g = ctx.rng(k)
        c = part.random_case(g, bins=int([2, 3, 16, 5, 8, 33, 4, 7][k % 8]))
        P = part.Partition(gen_dir(ctx, k), c.num_species, c.include, c.bins, gen.USER_FLAGS if k % 2 else gen.FAST_FLAGS)
        w = {"case": c.describe()}
        threads(1)
        one = P.run(c)
        gross = part.reference(c)[4]
        for team in (2, 3, 4, 8, 16):
            threads(team)
            for rep in range(ctx.n(6, 40)):
                got = P.run(c)
                for name, a, b, s in (("soa", got[0], one[0], one[0]), ("aw", got[1], one[1], one[1]),
                                      ("size", got[2], one[2], one[2]), ("flux", got[3], one[3], gross)):
                    if not (np.abs(np.asarray(a) - b) <= 1e-11 * np.abs(s) + 1e-290).all():
                        ctx.violation("differs-" + name, "%s with %d threads differs from the single-threaded result" % (name, team), **w)
                        break
                ctx.count("comparisons")
        threads(1)
        exe = det.build(P.src, "dydt_partition", "p%d" % k)
        outs = [1, c.bins, c.bins, c.total]
        native.pack(exe + ".in", [c.args[n] for n in part.ORDER], outs)
        for team in ((2, 4) if not ctx.thorough else (2, 3, 4, 8, 16)):
            p, o = det.execute(exe, exe + ".in", outs, team)
            race = det.races(p)
            if race:
                ctx.violation("race", "data race with %d threads: %s" % (team, race[:300]), report=race, **w)
                break
            if p.returncode or o is None:
                ctx.violation("crash", "fails with %d threads: %s" % (team, p.stderr[-300:]), **w)
                break
            if not (np.abs(o[0][3] - one[3]) <= 1e-9 * gross + 1e-290).all():
                ctx.violation("differs-flux", "fluxes under the race detector with %d threads differ" % team, **w)
            ctx.count("race_runs")
        ctx.case(k, c.describe())
