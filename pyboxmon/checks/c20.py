"""Batches are transparent: the sun keeps moving, nothing is lost between them, and any split gives the same run."""
import numpy as np

from .. import aero, gen, mech as mm, part, sims, stubs
from ..core import Inconclusive
from . import c17

# photolysis at a strong rate in the morning or evening, so that a wrong clock shows at once
SPLITS = [(600.0, [600.0, 100.0, 250.0, 60.0, 1000.0, 37.0]), (3.0, [3.0, 0.1, 0.7, 1.0, 5.0]), (7200.0, [7200.0, 1800.0, 5000.0, 700.0]),
          (0.3, [0.3, 0.1, 0.07]), (100.0, [100.0, 33.3, 14.0, 1.9])]
STARTS = [6.5 * 3600, 17.2 * 3600, 86400 - 300.0, 5.0 * 3600, 43200.0, 2 * 86400 + 7 * 3600.0]


def sunlit(g):
    """A linear and a quadratic chain driven by photolysis."""
    j = [int(x) for x in g.permutation([1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 15, 16, 17, 18, 22, 31, 32, 33, 34, 35, 41])[:5]]
    f = lambda a: "%g*J(%d)" % (a, j.pop())
    R = mm.Reaction
    names = [str(s) for s in g.permutation(["NO2", "NO", "O3", "HCHO", "CH3O2", "APINENE", "PINONIC", "C107O2"])]
    a, b, c, d, e, h, u, v = names
    rs = [R([(a, 1.0), ("hv", 1.0)], [(b, 1.0)], f(1)), R([(b, 1.0), ("hv", 1.0)], [(c, 0.5), (d, 0.5)], f(3)),
          R([(c, 1.0)], [(a, 1.0)], "1.0E-3*EXP(-200/TEMP)"), R([(c, 1.0), (d, 1.0)], [(e, 2.0)], "3.0E-15"),
          R([(e, 1.0), ("hv", 1.0)], [(h, 1.0)], f(0.5)), R([(h, 1.0), (a, 1.0)], [(b, 2.0)], "2.0E-16*(TEMP/300)"),
          R([(u, 1.0)], [(v, 1.0)], "1.0E-5")]           # a trace, of which nothing may be lost between batches
    return mm.Mech(rs), (a, b, c, d), (u, v)


def dark(g):
    m, conc = c17.dark(g)
    return m, tuple(conc), ()


def times_ok(ctx, label, run, total, batch, w):
    ends = sims.schedule(total, batch)
    got = np.cumsum(run.ends)
    if len(got) != len(ends) or not np.allclose(got, ends, rtol=1e-9) or (np.array(run.ends) > batch * (1 + 1e-9)).any():
        ctx.violation("schedule-" + label, "%s: %g s in batches of %g s ran batches ending at %s, expected %s"
                      % (label, total, batch, list(got)[:10], list(ends)[:10]), **w)
        return None
    y = run.y if isinstance(run, sims.Run) else np.asarray(run.saved("_y_output"), float)
    if y.shape[0] != len(ends):
        ctx.violation("rows-" + label, "%s: %d states are reported for %d batches" % (label, y.shape[0], len(ends)), **w)
        return None
    t = None
    if isinstance(run, sims.Run) and run.returned is not None:
        t = np.asarray(run.returned[0], float)
    elif not isinstance(run, sims.Run):
        t = np.asarray(run.saved("_t_output"), float)
    if t is not None and (t.shape != ends.shape or not np.allclose(t, ends, rtol=1e-9)):
        ctx.violation("times-" + label, "%s: reported times %s, expected %s" % (label, list(t)[:10], list(ends)[:10]), **w)
    ctx.count("batches", len(ends))
    return ends, y


def agree(ctx, label, runs, w, tol=3e-3):
    """Every state that two splits of one run report at the same time is the same."""
    seen = {}
    for batch, (ends, y) in runs:
        for t, v in zip(ends, y):
            seen.setdefault(round(t, 6), []).append((batch, v))
    scale = np.max([np.abs(y).max(0) for _, (_, y) in runs], axis=0) + 1e3
    for t, vs in seen.items():
        for batch, v in vs[1:]:
            err = np.abs(v - vs[0][1]) / scale
            if (err > tol).any():
                i = int(np.argmax(err))
                ctx.violation("split-" + label, "%s: state %d after %g s is %r in batches of %g s and %r in batches of %g s"
                              % (label, i, t, float(v[i]), batch, float(vs[0][1][i]), vs[0][0]), **w)
                return
            ctx.count("states_agreeing", v.size)


def check(ctx):
    ctx.rule = ("a case is one scenario run in several splits into batches, every right hand side evaluation of which was "
                "compared with the reference at the continuing time of day, and whose states at common times were compared")
    ctx.assumptions = ["the Assimulo stand-in of C17"]
    ctx.require("states_agreeing", 80)
    ctx.require("rhs_checked", 1500)
    ctx.require("traces_continued", 20)
    ctx.require("fine_splits", 4)
    ctx.require("nights", 2)
    for lab in ("numba", "fortran", "aerosol", "fixed"):
        ctx.require("runs_" + lab, 4)
    nights = list(zip(range(1000, 1009), ("numba", "fortran", "aerosol") * 3))[: ctx.n(3, 9)]
    for k in [n for n, _ in nights] + list(range(ctx.n(20, 100))):
        if ctx.left() < 0:
            ctx.count("cut_short")
            break
        g = ctx.rng(k)
        night = k >= 1000       # from one evening to the next, with nothing to do before the sun comes up
        label = dict(nights)[k] if night else ("numba", "fortran", "aerosol", "fixed", "fortran")[k % 5]
        total, batches = SPLITS[(k // 2 + k) % len(SPLITS)]
        batches = [batches[0]] + [float(x) for x in g.permutation(batches[1:])[: ctx.n(2, 5)]]
        start = STARTS[int(g.integers(len(STARTS)))]
        if night:
            start, total, batches = float(g.uniform(73000, 78000)), 86400.0, [86400.0, float(g.choice([28800.0, 43200.0]))]
        w = {"scenario": k, "start": start, "total": total}
        runs = []
        if label != "fixed":
            m, major, trace = dark(g) if night else sunlit(g)
            model = gen.Model(ctx, mm.write(m), "b%d" % k)
            b = model.bound(m)
            if b is None:
                continue
            w["reactions"] = m.as_text()
        if label == "numba":
            model.write_numba()
        elif label == "fortran":
            model.write_fortran()
            f = gen.Fortran(model, ("rates", "reactants", "dydt", "jacobian"))
        elif label == "aerosol":
            model.write_fortran(("rates", "reactants", "dydt"))
            f = gen.Fortran(model, ("rates", "reactants", "dydt"))
        if label in ("aerosol", "fixed"):
            n = b.n if label == "aerosol" else int(g.integers(2, 7))
            # the fixed yield run lets every species condense
            inc = g.permutation(n)[: 1 if night else int(g.integers(1, 4))] if label == "aerosol" else range(n)
            s = aero.Setup(g, n, 2 if night else int(g.choice([2, 3, 4])), inc, organics=not night)
            import os
            d = model.dir if label == "aerosol" else os.path.join(ctx.scratch, "b%d" % k)
            os.makedirs(d, exist_ok=True)
            P = part.Partition(d, s.ns, s.include, s.bins)
            if not night:
                total = min(total, 600.0)
                batches = [min(x, total) for x in batches]
                batches[0] = total
        conc = {s_: float(g.choice([1.0, 18.0, 30.0])) for s_ in (major if label != "fixed" else ())}
        if label != "fixed":
            conc.update({s_: float(10 ** g.uniform(-11.7, -10.7)) for s_ in trace})      # some 0.05 to 0.5 molecules per cc
        if 5 <= k < 10 or ctx.thorough and k % 3 == 0:      # many batches, whatever happens after so many of them
            batches.append(round(total / float(g.uniform(55, 130 if k < 10 else 700)), 6))
            ctx.count("fine_splits")
        H2O, temp, RH = float(10 ** g.uniform(16, 17.7)), float(g.choice([288.15, 298.15])), 0.5
        gas0 = g.uniform(0.1, 30, s.gas) * sims.CFACTOR * g.choice([1.0, 1e-11], s.gas) if label == "fixed" else None
        inp = None              # every split is given the same input
        for batch in dict.fromkeys(batches):
            try:
                if label in ("numba", "fortran"):
                    run = sims.Run(ctx, model, b, label, conc, start, temp, RH, H2O, total, batch,
                                   fortran=f if label == "fortran" else None, witness=w, inp=inp)
                elif label == "aerosol":
                    run = aero.Run(ctx, d, model.name, s, model, b, f, P, dict(conc, H2O=s.water_gas), start=start, H2O=H2O,
                                   total=total, batch=batch, witness=w, inp=inp)
                else:
                    run = aero.Run(ctx, d, "yield", s, None, None, None, P, gas0=list(gas0) + [s.water_gas], start=start, H2O=H2O,
                                   total=total, batch=batch, label="fixed yield", witness=w, inp=inp)
            except Inconclusive:
                ctx.count("unfinished_runs")
                continue
            inp = run.inp
            for i in range(1, len(run.mon.starts)):
                if not np.array_equal(run.mon.starts[i], run.states[i - 1]):
                    ctx.violation("continuity-" + label, "%s: batch %d starts from %r where the one before ended at %r"
                                  % (label, i, *[float(x[np.argmax(run.mon.starts[i] != run.states[i - 1])])
                                                 for x in (run.mon.starts[i], run.states[i - 1])]), **w)
                    break
                ctx.count("continuations")
                ctx.count("traces_continued", int(((run.states[i - 1] > 0) & (run.states[i - 1] < 1)).sum()))
            got = times_ok(ctx, label, run, total, batch, w)
            ctx.count("runs_" + label)
            if got is not None:
                runs.append((batch, got))
        if len(runs) > 1:
            agree(ctx, label, runs, w)
            ctx.count("nights", night)
        ctx.case(k, {"solver": label, "total": total, "batches": batches, "start": start})
