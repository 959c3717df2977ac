"""A run is a function of its inputs: histories of runs in one process against each run in a process of its own."""
import copy
import os
import pickle
import signal

import numpy as np

from .. import aero, chem, gen, mech as mm, part, sims, stubs, sut
from ..core import Inconclusive, SutError
from . import c17, c19

LENGTHS = [(300.0, 100.0), (250.0, 100.0), (60.0, 60.0), (120.0, 35.0), (90.0, 10.0), (2.0, 0.5), (180.0, 60.0)]


class Cut(stubs.Monitor):
    """Stops a run at one of its evaluations, as a user would."""

    def __init__(self, at=None):
        super().__init__()
        self.at = at

    def rhs(self, batch, t, y, out):
        if self.rhs_calls == self.at:
            raise Inconclusive("interrupted")


class World:
    """What the operations of one history are made of; built before any of them runs."""

    def __init__(self, ctx, g, tag, k):
        self.ctx, self.dir = ctx, os.path.join(ctx.scratch, tag)
        self.ops = []
        self.bad = False
        names = ("numba", "fortran", "aerosol", "fixed")
        kinds = [names[k % 4]] + [n for n in (names[int(g.integers(4))],) if n != names[k % 4]]
        for q, kind in enumerate(kinds):
            same = int(g.integers(3, 9))
            for i in range(2):
                self.subject(g, kind, "%s%d%d" % (tag, q, i), same if g.random() < 0.5 else None)
        for what in ("sizes", "properties"):
            for _ in range(2):
                self.ops.append(getattr(self, what)(g))

    def subject(self, g, kind, tag, size):
        """A mechanism (or a set of particles) and some runs of it that differ in one setting."""
        sub = {"kind": kind, "key": tag}
        if kind != "fixed":
            m = mm.random_mech(g, size or int(g.integers(4, 14)), size or int(g.integers(4, 9)), closed=True, special=False)
            m = c17.tame(m, g) if kind in ("numba", "fortran") else c19.gentle(m, g)
            if g.random() < 0.6:        # the species the figures are of
                m.reactions.append(mm.Reaction([("APINENE", 1.0), ("O3", 1.0)], [("PINONIC", 1.0)], "1.0E-16*(TEMP/300)"))
                m.reactions.append(mm.Reaction([("PINONIC", 1.0)], [("APINENE", 1.0)], "1.0E-6"))
                m = mm.Mech(m.reactions)
            for _ in range(4):          # something to see in the sun
                a, b = (str(s) for s in g.permutation([s for s in m.species if s not in mm.INERT])[:2])
                m.reactions.append(mm.Reaction([(a, 1.0), ("hv", 1.0)], [(b, 1.0)], "J(%d)" % int(g.choice([1, 4, 7, 11, 22, 41]))))
            m = mm.Mech(m.reactions)
            model = gen.Model(self.ctx, mm.write(m), tag)
            b = model.bound(m)
            if b is None:
                self.bad = True
                return
            sub.update(m=m, model=model, b=b, idx=model.ro2_indices())
            if kind == "numba":
                model.write_numba()
            else:
                parts = ("rates", "reactants", "dydt") + (("jacobian",) if kind == "fortran" else ())
                model.write_fortran(parts)
                sub["f"] = gen.Fortran(model, parts)
        n = sub["b"].n if kind != "fixed" else size or int(g.integers(2, 8))
        if kind in ("aerosol", "fixed"):
            s = sub["s"] = aero.Setup(g, n, 2 if size else int(g.integers(1, 4)), g.permutation(n)[: int(g.integers(1, n + 1))])
            sub["dir"] = os.path.join(self.ctx.scratch, tag)
            os.makedirs(sub["dir"], exist_ok=True)
            sub["P"] = part.Partition(sub["dir"], s.ns, s.include, s.bins)
        base = {"temp": float(g.choice([273.15, 288.15, 298.15])), "start": float(g.uniform(7, 16) * 3600), "RH": 0.5,
                "H2O": float(10 ** g.uniform(16.5, 17.5)), "length": LENGTHS[int(g.integers(len(LENGTHS)))], "amount": self.amounts(g, sub, n)}
        self.ops.append((sub, base))
        for what in g.permutation(["temp", "start", "H2O", "length", "amount"])[:2]:
            v = dict(base)
            v[what] = {"temp": base["temp"] + 9.0, "start": base["start"] + 5000.0, "H2O": base["H2O"] * 3, "amount": self.amounts(g, sub, n),
                       "length": LENGTHS[(LENGTHS.index(base["length"]) + 1 + int(g.integers(len(LENGTHS) - 1))) % len(LENGTHS)]}[what]
            self.ops.append((sub, v))

    def amounts(self, g, sub, n):
        if sub["kind"] == "fixed":
            return [float(v) for v in g.uniform(0.1, 30, n) * sims.CFACTOR] + [sub["s"].water_gas]
        sp = [str(s) for s in g.permutation([s for s in sub["m"].species if s not in mm.INERT])]
        out = {s: float(g.choice([0.1, 1.0, 18.0, 30.0])) for s in sp[: int(g.integers(1, len(sp) + 1))]}
        if sub["kind"] == "aerosol":
            out["H2O"] = sub["s"].water_gas
        return out

    def sizes(self, g):
        n, med, s = int(g.integers(1, 40)), float(10 ** g.uniform(-2, 0)), float(g.uniform(1.2, 3))
        args = n, float(10 ** g.uniform(0, 4)), med, s, med / s ** 2, med * s ** 2
        return {"kind": "sizes", "key": "sizes"}, {"args": args}

    def properties(self, g):
        n = int(g.integers(2, 15))
        smi = chem.distinct_smiles(g, n)
        names = ["S%d" % i for i in g.permutation(50)[:n]]
        has = g.random(n) < 0.8
        pick = lambda v: str(g.choice(v))
        from . import c25
        args = (n, dict(enumerate(names)), {s: i for i, s in enumerate(names)}, smi, {names[i]: smi[i] for i in range(n) if has[i]},
                float(g.uniform(260, 310)), pick(c25.VP), pick(c25.BP), pick(c25.CRIT), pick(c25.RHO), bool(g.integers(2)), float(g.uniform(-12, -4)))
        return {"kind": "properties", "key": "properties"}, {"args": args}

    # ---- inputs ------------------------------------------------------------
    def inputs(self, op):
        sub, v = op
        kind = sub["kind"]
        if kind == "sizes":
            return list(v["args"])
        if kind == "properties":
            import pybel
            a = copy.deepcopy(list(v["args"]))
            a[3] = {s: pybel.readstring("smi", s) for s in set(a[4].values())}
            return a
        inp = sub["s"].input_dict() if "s" in sub else {}
        if kind == "fixed":
            names = {i: "S%d" % i for i in range(sub["s"].gas)}
            inp.update(species_dict=names, species_dict2array={x: k for k, x in names.items()}, y_gas_initial=list(v["amount"]))
        else:
            o = sub["model"].out
            inp.update(species_dict=dict(o["species_dict"]), species_dict2array=dict(o["species_dict2array"]),
                       species_initial_conc=dict(v["amount"]), equations=sub["model"].m)
            if kind == "aerosol":
                n = sub["s"].gas
                inp["species_dict2array"].update({"H2O": n, "cation": n + 1, "anion": n + 2})
        return inp

    # ---- running -----------------------------------------------------------
    def run(self, op, inp, where, save=True, plot=True, screen="fine", cut=None):
        """What one operation gives: {name: array or text}."""
        sub, v = op
        kind = sub["kind"]
        if kind == "sizes":
            num, x = sut.call("lognormal", sut.load("Aerosol/Size_distributions.py").lognormal, *inp)
            return {"numbers": np.asarray(num, float), "sizes": np.asarray(x, float)}
        if kind == "properties":
            from . import c25
            mod = c25.properties_module()
            o = sut.call("Pure_component1", mod.Pure_component1, *inp)
            mw = np.append(np.asarray(o["y_mw"], float), 18.0)
            o2 = sut.call("Pure_component2", mod.Pure_component2, len(mw), mw, 8.3144598, inp[5])
            out = {k: np.asarray(o[k], float) for k in ("y_density_array", "y_mw", "sat_vp", "Delta_H", "Latent_heat_gas", "include_index",
                                                        "ignore_index", "ignore_index_fortran")}
            out.update((k, np.asarray(o2[k], float)) for k in ("DStar_org", "alpha_d_org", "gamma_gas"))
            return out
        mon = Cut(cut)
        total, batch = v["length"]
        before = contents(where)
        try:
            if "s" in sub:
                s = copy.copy(sub["s"])
                s.temp, s.RH = v["temp"], s.RH
                kw = dict(start=v["start"], H2O=v["H2O"], total=total, batch=batch, save=save, plot=plot, inp=inp, monitor=mon, screen=screen)
                if kind == "aerosol":
                    run = aero.Run(self.ctx, where, "mech", s, sub["model"], sub["b"], sub["f"], sub["P"], v["amount"], idx=sub["idx"], **kw)
                else:
                    run = aero.Run(self.ctx, where, "mech", s, None, None, None, sub["P"], gas0=v["amount"], label="fixed yield", **kw)
            else:
                run = sims.Run(self.ctx, sub["model"], sub["b"], kind, v["amount"], v["start"], v["temp"], v["RH"], v["H2O"], total, batch,
                               fortran=sub.get("f"), save=save, monitor=mon, inp=inp, where=where, idx=sub["idx"], screen=screen)
        except Inconclusive:
            if cut is None or mon.rhs_calls < cut:
                raise
            return None
        out = {"batch ends": np.array(run.ends), "states": run.states, "starts": np.array([b[2] for b in mon.batches])}
        if run.returned is not None:
            out["returned times"], out["returned states"] = (np.asarray(x, float) for x in run.returned)
        after = contents(where)
        if save:
            out.update(("saved " + n, c) for n, c in decoded(where).items())
        elif after != before:
            out["left alone"] = sorted(n for n in set(after) | set(before) if after.get(n) != before.get(n))
        return out


def contents(d):
    return {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d) if not n.startswith("__")}


def decoded(d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if n.endswith(".npy"):
            out[n] = np.load(p, allow_pickle=True)
        elif n.endswith(".pickle"):
            with open(p, "rb") as f:
                out[n] = np.asarray(pickle.load(f), float)
        elif n.endswith(".csv"):
            with open(p, newline="") as f:
                out[n] = f.read()
    return out


def numbers(text):
    out = []
    for x in text.replace("\r", "").replace("\n", ",").split(","):
        try:
            out.append(float(x))
        except ValueError:
            out.append(x)
    return out


def same(a, b):
    """What differs between two outcomes of one operation, in words."""
    if sorted(a) != sorted(b):
        return "one gives %s, the other %s" % (sorted(set(a) - set(b)), sorted(set(b) - set(a)))
    for k in a:
        u, v = a[k], b[k]
        if isinstance(u, str) or isinstance(v, str):
            if u == v:
                continue
            u, v = numbers(u), numbers(v)
            if len(u) == len(v) and all(x == y or (isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-7 * max(abs(x), abs(y), 1.0))
                                        for x, y in zip(u, v)):
                continue
            return "%s differ" % k
        if np.shape(u) != np.shape(v):
            return "%s have shapes %s and %s" % (k, np.shape(u), np.shape(v))
        u, v = np.asarray(u, float), np.asarray(v, float)
        if u.size == 0:
            continue
        scale = np.maximum(np.abs(u).max(0), np.abs(v).max(0)) if u.ndim > 1 else np.maximum(np.abs(u), np.abs(v))
        with np.errstate(all="ignore"):
            bad = ~((u == v) | (np.abs(u - v) <= 1e-7 * scale + (1e-3 if k in ("states", "starts", "returned states") or "output" in k else 0))
                    | (np.isnan(u) & np.isnan(v)))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            return "%s%s are %r and %r" % (k, list(i), float(u[i]), float(v[i]))
    return None


# ---- processes ---------------------------------------------------------------
class Child:
    """A function in a process forked from this one, in which nothing has been run."""

    def __init__(self, path, fn):
        self.path = path
        self.pid = os.fork()
        if self.pid:
            return
        rc = 5
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(400)
            try:
                out = ("ok", fn())
            except SutError as e:
                out = ("raises", (e.what, str(e), e.tb))
            except Inconclusive as e:
                out = ("unfinished", str(e))
            except Exception:
                import traceback
                out = ("harness", traceback.format_exc())
            with open(path, "wb") as f:
                pickle.dump(out, f)
            rc = 0
        finally:
            os._exit(rc)

    def result(self):
        _, status = os.waitpid(self.pid, 0)
        if status:
            raise Inconclusive("a process of the check ended with status %d" % status)
        with open(self.path, "rb") as f:
            what, out = pickle.load(f)
        if what == "harness":
            raise RuntimeError(out)
        if what == "unfinished":
            raise Inconclusive(out)
        return what, out


def plan(g, ops, length):
    """A history: some operations twice in a row, others with anything in between, some saved, some stopped half way."""
    out = [int(i) for i in g.permutation(len(ops))]
    while len(out) < length:
        out.append(out[-1] if g.random() < 0.2 else int(g.integers(len(ops))))
    first = int(g.integers(len(ops)))
    steps = []
    for i in [first] + out + [first]:
        u = g.random()
        steps.append({"op": i, "input": ("again", "fresh", "edited")[int(g.integers(3))], "save": bool(g.random() < 0.7), "plot": bool(g.random() < 0.5),
                      "screen": "fine" if u < 0.6 else ("none" if u < 0.8 else "closed"),
                      "cut": int(g.integers(1, 60)) if g.random() < 0.15 else None})
    return steps


def history(world, steps, base):
    """All steps one after another; the outcome of each, or what it raised."""
    os.makedirs(base, exist_ok=True)
    kept, shared, out = {}, {}, []
    for st in steps:
        op = world.ops[st["op"]]
        key = op[0]["key"]
        inp = world.inputs(op)
        if st["input"] == "again" and st["op"] in kept:
            inp = kept[st["op"]]
        elif st["input"] == "edited" and isinstance(inp, dict):        # the same dictionary, other values in it
            shared.setdefault(key, {}).update(inp)
            inp = shared[key]
        else:
            kept[st["op"]] = inp
        where = os.path.join(base, "fixed" if op[0]["kind"] in ("aerosol", "fixed") else "gas", op[0]["kind"])
        os.makedirs(where, exist_ok=True)
        try:
            out.append(("ok", world.run(op, inp, where, st["save"], st["plot"], st["screen"], st["cut"])))
        except Inconclusive as e:
            out.append(("unfinished", str(e)))
        except SutError as e:
            out.append(("raises", (e.what, str(e), e.tb)))
    return out


def describe(world, st):
    sub, v = world.ops[st["op"]]
    out = dict(st, kind=sub["kind"], subject=sub["key"])
    out.update({k: x for k, x in v.items() if k != "args"})
    return out


def check(ctx):
    ctx.rule = ("a case is one step of a history of runs and calculations in one process, whose states, returned values and saved files were "
                "compared with those of the same step alone in a process of its own")
    ctx.assumptions = ["the Assimulo stand-in of C17, which is deterministic", "the UManSysProp stand-in of C25",
                       "a run imports the generated modules of its own mechanism"]
    ctx.require("steps_compared", 60)
    ctx.require("repeats", 15)
    ctx.require("after_interruption", 5)
    ctx.require("without_screen", 15)
    ctx.require("unsaved", 10)
    ctx.require("saved_alone", 25)
    ctx.require("figures_refused", 2)
    for kind in ("numba", "fortran", "aerosol", "fixed"):
        ctx.require("steps_" + kind, 4)
    for rel in ("ODE_solver.py", "f2py/ODE_solver.py", "Aerosol/f2py/ODE_solver.py", "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"):
        sims.solver_module(rel)
    import matplotlib.pyplot     # noqa: F401  loaded once, before any process is forked
    for k in range(ctx.n(16, 90)):
        if ctx.left(quick=150.0) < 0 and k >= 5:
            ctx.count("cut_short")
            break
        g = ctx.rng(k)
        w = World(ctx, g, "h%d" % k, k)
        if w.bad:
            continue
        steps = plan(g, w.ops, len(w.ops) + ctx.n(8, 14))
        base = os.path.join(ctx.scratch, "h%d" % k)
        os.makedirs(base, exist_ok=True)

        def alone(i):
            d = os.path.join(base, "alone%d" % i)
            os.makedirs(d, exist_ok=True)
            return w.run(w.ops[i], w.inputs(w.ops[i]), d)

        children = [Child(os.path.join(base, "a%d" % i), lambda i=i: alone(i)) for i in range(len(w.ops))]
        long = Child(os.path.join(base, "all"), lambda: history(w, steps, os.path.join(base, "all_of_it")))
        refs = []
        for i, c in enumerate(children):
            try:
                what, out = c.result()
                if what == "raises":
                    ctx.violation("raises:" + out[0], out[1], traceback=out[2], step=describe(w, {"op": i}))
                    out = None
            except Inconclusive as e:
                ctx.count("unfinished_runs")
                ctx.note(e)
                out = None
            if out is not None and "states" in out:
                kept = [v for n, v in out.items() if n.startswith("saved ") and np.shape(v) == out["states"].shape]
                if not any(np.allclose(v, out["states"], rtol=1e-9, atol=1e-6) for v in kept):
                    ctx.violation("unsaved-" + w.ops[i][0]["kind"], "%s: a run that is to save its results does not (files: %s)"
                                  % (w.ops[i][0]["kind"], [n[6:] for n in out if n.startswith("saved ")]), step=describe(w, {"op": i}))
                ctx.count("saved_alone")
            refs.append(out)
        try:
            _, outs = long.result()
        except Inconclusive as e:
            ctx.count("unfinished_histories")
            ctx.note(e)
            continue
        seen, cut = set(), False
        for j, (st, (what, out)) in enumerate(zip(steps, outs)):
            info = {"history": [describe(w, s) for s in steps[max(0, j - 4): j + 1]], "step": j}
            kind = w.ops[st["op"]][0]["kind"]
            if what == "raises":
                ctx.violation("raises-later:" + out[0], "step %d of a history, %s: %s" % (j, kind, out[1]), traceback=out[2], **info)
                continue
            if what == "unfinished":
                ctx.count("unfinished_runs")
                continue
            if out is None:
                cut = True
                ctx.count("interrupted")
                continue
            ref = refs[st["op"]]
            if ref is None:
                continue
            if "left alone" in out:
                ctx.violation("unasked-" + kind, "%s: a run that was not to save its results changes %s" % (kind, out["left alone"][:4]), **info)
                continue
            if not st["save"]:
                ref = {n: v for n, v in ref.items() if not n.startswith("saved ")}
                ctx.count("unsaved")
            diff = same(out, ref)
            if diff:
                ctx.violation("history-" + kind, "%s, step %d of a history: after what ran before and alone, %s" % (kind, j, diff), **info)
            ctx.count("steps_compared")
            ctx.count("steps_" + kind)
            ctx.count("repeats", st["op"] in seen)
            ctx.count("after_interruption", cut)
            ctx.count("without_screen", st["screen"] != "fine" and kind not in ("sizes", "properties"))
            ctx.count("figures_refused", st["screen"] != "fine" and kind == "fortran" and "APINENE" in w.ops[st["op"]][0]["m"].species)
            ctx.count("values", sum(v.size for v in out.values() if isinstance(v, np.ndarray)))
            seen.add(st["op"])
            ctx.case((k, j), {"kind": kind, "before": [w.ops[s["op"]][0]["kind"] for s in steps[:j]][-6:]})
