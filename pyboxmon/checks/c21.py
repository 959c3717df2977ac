"""The gas-phase driver scripts: from the mechanism file to saved results, with earlier files in place, and reused files."""
import csv
import os

import numpy as np

from .. import cases, drivers, gen, mech as mm, sims, sut
from ..core import Inconclusive, SutError

DRIVERS = {"numba": ("Gas_simulation.py", "ODE_solver"), "fortran": ("f2py/Gas_simulation_f2py.py", "ODE_solver")}
REUSE = (r"(?m)^(\s*files_exist\s*=\s*)False", r"\1True")
SAVE = (r"(?m)^(\s*save_output\s*=\s*)False", r"\1True")


def water(temp, RH):
    """Water vapour of a relative humidity [molecules/cc], by the formula the drivers document."""
    c = temp - 273.15
    p = 610.78 * np.exp(c / (c + 238.3) * 17.2694)
    return 0.002166 * (RH * p / (c + 273.16)) * 1e-6 / 18.0e-3 * 6.0221409e23


def judge(ctx, label, m, rec, w, earlier=None):
    if rec["error"]:
        ctx.violation("driver-" + label, "the %s driver fails: %s" % (label, rec["error"][-700:]), **w)
        return None
    a, inp = rec["args"], rec["input"]
    index = {s: int(i) for s, i in inp["species_dict2array"].items()}
    if set(index) != set(m.species) or sorted(index.values()) != list(range(len(m.species))) or \
            {int(i): s for i, s in inp.get("species_dict", {i: s for s, i in index.items()}).items()} != {i: s for s, i in index.items()} or \
            int(inp.get("equations", len(m))) != len(m):
        ctx.violation("mechanism-" + label, "%s: the run uses %s equations and %d species, the mechanism file has %d and %d"
                      % (label, inp.get("equations"), len(index), len(m), len(m.species)), **w)
        return None
    b = m.bind(index)
    ro2 = mm.ro2_reference() & set(index)
    if sorted(int(i) for i in a["RO2_indices"]) != sorted(index[s] for s in ro2):
        ctx.violation("ro2-" + label, "%s: RO2 indices %s, expected %s" % (label, list(a["RO2_indices"]), sorted(index[s] for s in ro2)), **w)
        return None
    drivers.settings_reach(ctx, label, rec, w)
    ctx.expect_close("water-" + label, "%s: water vapour" % label, a["H2O"], water(a["temp"], a["RH"]), 1e-9, **w)
    if rec["dry"]:
        ctx.count("settled_runs")
        return None
    conc = {s: float(c) for s, c in inp["species_initial_conc"].items()}
    y0 = sims.initial(b, conc)
    batches = rec["batches"]
    ends = sims.schedule(a["simulation_time"], a["batch_step"])
    if len(batches) != len(ends):
        ctx.violation("schedule-" + label, "%s: %d batches, expected %d" % (label, len(batches), len(ends)), **w)
        return None
    states = np.array([x[3] for x in batches])
    ctx.expect_close("initial-" + label, "%s: initial state" % label, batches[0][2], y0, 1e-12, **w)
    ref = sims.reference_run(b, ro2, y0, a["start_time"], a["temp"], a["H2O"], ends)
    if ref is None:
        ctx.count("reference_failed")
        ref = states
    else:
        ctx.count("states_compared", states.size)
    scale = np.abs(ref).max(0) + 1e3
    err = np.abs(states - ref) / scale
    if (err > 2e-2).any():
        i, j = np.unravel_index(np.argmax(err), err.shape)
        s = [x for x, q in index.items() if q == j][0]
        ctx.violation("result-" + label, "%s: [%s] is %r after %g s, the reference gives %r"
                      % (label, s, float(states[i, j]), ends[i], float(ref[i, j])), **w)
        return None
    ctx.count("driver_runs_" + label)
    out = {s: states[:, i] for s, i in index.items()}
    if rec["returned"] is not None:
        t, y = rec["returned"]
        ctx.expect_close("returned-" + label, "%s: returned states" % label, y, states, 1e-12, **w)
        ctx.expect_close("times-" + label, "%s: returned times" % label, t, ends, 1e-9, **w)
    if a["save_output"]:
        saved(ctx, label, rec["saved"], states, index, w)
    if earlier is not None:
        for s in out:
            ctx.expect_close("reuse-" + label, "%s: [%s] of a run with the files of the first run" % (label, s), out[s], earlier[s], 1e-6,
                             1e-6 * scale[index[s]], **w)
        ctx.count("reused_runs")
    return out


def load(stem):
    """The three files of saved results, or what is wrong with them; the next run overwrites them."""
    import pandas
    try:
        with open(stem + "_output_names.csv", newline="") as f:
            rows = [r for r in csv.reader(f) if r]
        return (np.load(stem + "_output.npy"), pandas.read_csv(stem + "_output_matrix.csv", index_col=0).values,
                {r[0]: int(r[1]) for r in rows})
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def saved(ctx, label, got, states, index, w):
    if isinstance(got, str):
        ctx.violation("unreadable-" + label, "%s: the saved results cannot be read: %s" % (label, got), **w)
        return
    ctx.expect_close("saved-" + label, "%s: saved states" % label, got[0], states, 1e-12, **w)
    ctx.expect_close("table-" + label, "%s: saved table" % label, got[1], states, 1e-12, 1e-290, **w)
    if got[2] != index:
        ctx.violation("names-" + label, "%s: the saved names do not name the columns" % label, **w)
    ctx.count("saved_results")


def choose(g):
    """What a user may set in the script."""
    out = {"temp": (273.15, 293.0, 310.0, 285), "RH": (0.1, 0.35, 0.8), "hour_of_day": (6.5, 9.25, 17.0, 23.9, 16, 8),
           "simulation_time": (900.0, 1800.0, 1000.0, 700), "batch_step": (60.0, 150.0, 300.0, 140),
           drivers.INITIAL[0]: (0.0, 5.0, 40.0, 25), drivers.INITIAL[1]: (0.5, 12.0, 55.0)}
    return {n: v[int(g.integers(len(v)))] for n, v in out.items() if g.random() < 0.75}


def history(ctx, label, k):
    """Mechanism A, then B in the same place, then B again from its files. Runs in a thread: it changes no directory."""
    g = ctx.rng(label, k)
    rel, solver = DRIVERS[label]
    ws = drivers.Workspace(ctx, "d%s%d" % (label, k))
    jit = label == "numba" and ctx.thorough and k % 2 == 1
    res, earlier, m, settings = [], None, None, {}
    for step in ("first", "second", "reused", "changed"):
        if step == "changed":
            settings = dict(choose(g), **{n: v for n, v in settings.items() if n == "filename"})
        elif step != "reused":
            settings = choose(g) if (k + len(res)) % 2 == (label == "numba") else {}
            if settings and label == "fortran":
                settings["openMP"] = True
            m = drivers.mechanism(g, int(g.integers(3, 14)), k % 2 == 1)
            ws.mechanism(named(g, ws, rel, settings), mm.write(m, mm.Style(g) if step == "first" else None))
        w = {"driver": label, "step": step, "settings": settings, "reactions": m.as_text()}
        edit = REUSE if step in ("reused", "changed") else (SAVE if label == "numba" and step == "second" else None)
        try:
            rec = ws.run(rel, solver, edit, jit=jit, settings=settings)
        except Inconclusive as e:
            raise Inconclusive("%s; %s" % (e, w))
        if rec is None:
            ctx.count("edit_not_applicable")
            continue
        if not rec["error"] and rec["args"].get("save_output"):
            rec["saved"] = load(os.path.join(rec["dir"], rec["args"]["filename"]))
        res.append((step, m, rec, w))
    return label, k, res


def gather(ctx, job):
    try:
        label, k, res = job.result()
    except Inconclusive as e:
        ctx.count("unfinished_runs")
        ctx.note("an unfinished run: %s" % e)
        return
    earlier = None
    for step, m, rec, w in res:
        try:
            out = judge(ctx, label, m, rec, w, earlier if step == "reused" else None)
        except (KeyError, IndexError, TypeError, ValueError) as e:
            ctx.violation("malformed-" + label, "%s: what reaches the solver or is saved is malformed: %s: %s" % (label, type(e).__name__, e), **w)
            out = None
        earlier = out
        if rec["settings"].get("openMP"):
            ctx.count("openmp_runs")
        if step.startswith("again"):
            ctx.count("reused_set_ups")
        ctx.case((label, k, step), {"driver": label, "step": step, "species": len(m.species), "equations": len(m)})


def named(g, ws, rel, settings):
    """The name of the mechanism; once in a while the user's own one."""
    if settings and ws.can_set(rel, "filename") and g.random() < 0.5:
        settings["filename"] = ("MCM_other", "my_mechanism", "scheme2")[int(g.integers(3))]
    return settings.get("filename", "MCM_APINENE")


def wide(g, spread):
    """Any settings a user may choose."""
    u = lambda name, lo, hi, digits: (name, spread.number(g, name, lo, hi, digits))
    out = dict([u("temp", 235, 320, 2), u("RH", 0.01, 0.99, 3), u("hour_of_day", 0, 23.9, 2), u("simulation_time", 50, 90000, 1),
                u("batch_step", 1, 900, 1), u(drivers.INITIAL[0], 0, 100, 2), u(drivers.INITIAL[1], 0, 100, 2)])
    return {n: v for n, v in out.items() if n == "temp" or g.random() < 0.9}


def before(ctx, label, k):
    """What a driver settles before it starts the solver, over many settings."""
    g = ctx.rng("before", label, k)
    rel, solver = DRIVERS[label]
    ws = drivers.Workspace(ctx, "b%s%d" % (label, k))
    res = []
    runs = ctx.n(5, 12)
    spread = drivers.Spread(ctx, label, runs * ctx.n(2, 6))
    for j in range(runs):
        spread.run = k * runs + j
        settings = wide(g, spread)
        if j == 1:          # the mechanisms PyBox comes with
            name, path = drivers.shipped(k)
            m, text = mm.load_shipped(path), cases.shipped_text(path)
        else:
            m = drivers.mechanism(g, int(g.integers(3, 20)), g.random() < 0.4)
            text = mm.write(m, mm.Style(g))
        ws.mechanism(named(g, ws, rel, settings), text)
        w = {"driver": label, "step": "before", "settings": settings, "reactions": m.as_text()[:40]}
        rec = ws.run(rel, solver, settings=settings, dry=True)
        res.append(("before%d" % j, m, rec, w))
        if j % 2 == k % 2 and not rec["error"]:      # its files, used again under other conditions
            settings = dict(wide(g, spread), **{n: v for n, v in settings.items() if n == "filename"})
            rec = ws.run(rel, solver, REUSE, settings=settings, dry=True)
            if rec is not None:
                res.append(("again%d" % j, m, rec, dict(w, step="before, reused", settings=settings)))
    return label, k, res


def direct(ctx):
    """What run_simulation itself saves, for both solvers."""
    for k in range(ctx.n(6, 36)):
        g = ctx.rng("direct", k)
        save = k // 2 % 3 != 2
        label = ("numba", "fortran")[k % 2]
        m = drivers.mechanism(g, int(g.integers(2, 10)))
        model = gen.Model(ctx, mm.write(m), "direct%d" % k)
        b = model.bound(m)
        if b is None:
            continue
        model.write_fortran() if label == "fortran" else model.write_numba()
        total, batch = [(300.0, 100.0), (70.0, 30.0)][k // 2 % 2]
        try:
            run = sims.Run(ctx, model, b, label, {"O3": 18.0, "APINENE": 30.0}, 40000.0, 298.15, 0.5, 3e17, total, batch, save=save)
        except Inconclusive:
            ctx.count("unfinished_runs")
            continue
        w = {"reactions": m.as_text(), "total": total, "batch": batch}
        if save:
            saved(ctx, label, load(run.path), run.states, b.index, w)
        else:
            there = [n for n in os.listdir(model.dir) if "_output" in n]
            if there:
                ctx.violation("unasked-" + label, "%s: a run that was not to save its results writes %s" % (label, there), **w)
            ctx.count("unsaved_runs")
        ctx.case(("direct", k), {"solver": label, "batches": len(run.ends)})


def check(ctx):
    ctx.rule = ("a case is one run of a driver script in a scratch copy, in place of earlier runs or from their files, whose mechanism, "
                "RO2, water, states and saved results were compared with the references, or one run whose saved files were read back")
    ctx.assumptions = ["the Assimulo stand-in of C17", "the mechanism has the species the drivers name: O3, APINENE, PINONIC"]
    ctx.require("driver_runs_numba", 2)
    ctx.require("driver_runs_fortran", 1)
    ctx.require("saved_results", 4)
    ctx.require("states_compared", 500)
    ctx.require("settled_runs", 8)
    jobs = [gen.LONG.submit(before, ctx, label, k) for label in DRIVERS for k in range(ctx.n(2, 6))]
    for k in range(ctx.n(2, 8)):
        jobs.append(gen.LONG.submit(history, ctx, "numba", k))
    for k in range(ctx.n(1, 5)):
        jobs.append(gen.LONG.submit(history, ctx, "fortran", k))
    direct(ctx)
    for j in jobs:
        gather(ctx, j)
