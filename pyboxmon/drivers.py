"""Running PyBox's own driver scripts, unchanged, in a scratch copy of the repository, and recording what they did."""
import os
import pickle
import re
import shutil
import subprocess

import numpy as np

from . import cases, gen, mech as mm
from .core import REPO, Inconclusive, SutError

RUNNER = r"""
import copy, inspect, os, pickle, resource, runpy, sys
resource.setrlimit(resource.RLIMIT_AS, (16 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
import numpy as np
from pyboxmon import chem, fakepybel, figures, stubs, sut
script, solver, out = %(script)r, %(solver)r, %(out)r
sys.modules['pybel'] = fakepybel
sut.install_compat()
stubs.install_assimulo()
chem.install_umansysprop()
mon = stubs.Monitor()
mon.max_events = 400000
mon.method = 'BDF' if %(aerosol)r else 'LSODA'
stubs.MONITOR[0] = mon
here = os.getcwd()
for d in (os.path.abspath('../..'),):   # what the package import of f2py/ relies on
    sys.path.append(d)
mod = __import__(solver)
real, record = mod.run_simulation, {}

def run_simulation(*a, **k):
    sig = inspect.signature(real)
    b = sig.bind(*a, **k)
    b.apply_defaults()
    known, own = %(order)r.split(), list(sig.parameters)
    name = dict(zip(own, known)) if set(own) != set(known) and len(own) == len(known) else {}   # renamed parameters
    given = {name.get(n, n): v for n, v in b.arguments.items()}
    record['args'] = copy.deepcopy({n: v for n, v in given.items() if n != 'input_dict'})
    inp = given['input_dict']
    record['input'] = {n: copy.deepcopy(v) for n, v in inp.items() if n != 'species_dict2array'}
    record['input']['species_dict2array'] = {n: int(v) for n, v in inp['species_dict2array'].items() if isinstance(n, str)}
    f, frames = sys._getframe(1), []
    while f is not None:
        frames.append(f)
        f = f.f_back
    for f in reversed(frames):      # a script may keep its settings in a function
        if f.f_code.co_filename.endswith(script):
            g.update(f.f_locals)
    if %(dry)r:
        raise Settled()
    r = real(*a, **k)
    record['returned'] = r
    return r

class Settled(BaseException):
    pass

mod.run_simulation = run_simulation
if %(dry)r:
    os.system = lambda command: 0       # nothing that is compiled gets used
g = {}
error = None
record['figures'] = []
try:
    with figures.shown() as seen:
        record['figures'] = seen
        g.update(runpy.run_path(script, run_name='__main__'))
except Settled:
    record['returned'] = None
except BaseException as e:
    import traceback
    error = traceback.format_exc()[-3000:]
    if 'pyboxmon.core.Inconclusive' in error:
        error = 'INCONCLUSIVE ' + error[-300:]
record['error'] = error
record['batches'] = mon.batches
record['usejac'] = mon.jac_calls
record['globals'] = {n: v for n, v in g.items() if isinstance(v, (int, float, str)) and not n.startswith('__')}
with open(out, 'wb') as f:
    pickle.dump(record, f)
"""

ORDER = {"ODE_solver.py": "filename save_output start_time temp RH RO2_indices H2O input_dict simulation_time batch_step",
         "f2py/ODE_solver.py": "filename start_time save_output temp RH RO2_indices H2O input_dict simulation_time batch_step",
         "Aerosol/f2py/ODE_solver.py": "filename save_output start_time temp RH RO2_indices H2O PInit y_cond input_dict simulation_time "
                                       "batch_step plot_mass",
         "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py": "filename save_output start_time temp RH H2O PInit y_cond input_dict "
                                                              "simulation_time batch_step"}

SKIP = shutil.ignore_patterns(".git", "images", "docs", "test", "__pycache__", "*.so", "*.f90", "*.npy", "*.npz", "*.pickle", "*_numba.py",
                              "paper.*")


class PerBin(str):
    """A list with one entry for each size bin, which differ between the smaller and the larger particles."""

    def __new__(cls, a, b):
        x = str.__new__(cls, "[%r]*(num_bins//2)+[%r]*(num_bins-num_bins//2)" % (a, b))
        x.ab = a, b
        return x

    __repr__ = str.__str__

    def at(self, n):
        return [self.ab[0]] * (n // 2) + [self.ab[1]] * (n - n // 2)


class Spread:
    """Settings for a number of runs, each spread over the whole of its range: one run for every part of it."""

    def __init__(self, ctx, label, runs):
        self.ctx, self.label, self.runs, self.parts, self.run = ctx, label, runs, {}, 0

    def part(self, name):
        if name not in self.parts:
            self.parts[name] = self.ctx.rng("spread", self.label, name).permutation(self.runs)
        return int(self.parts[name][self.run % self.runs])

    def number(self, g, name, lo, hi, digits):
        return round(lo + (hi - lo) * (self.part(name) + float(g.random())) / self.runs, digits)

    def one(self, name, options):
        return options[self.part(name) * len(options) // self.runs if len(options) < self.runs else self.part(name) % len(options)]


def assign(src, name, value):
    """(script, places) with the assignment of a setting changed."""
    bins = r"|\[[-+0-9.eE]+\][ \t]*\*[ \t]*num_bins" if isinstance(value, PerBin) else ""
    return re.subn(r"(?m)^([ \t]*%s[ \t]*=[ \t]*)([-+]?[0-9.]+(?:[eE][-+]?\d+)?|True|False|'\w+'%s)(?=[ \t]*(#|;|$))" % (re.escape(name), bins),
                   lambda q: q.group(1) + repr(value), src)


class Workspace:
    def __init__(self, ctx, tag):
        self.top = os.path.join(ctx.scratch, tag)
        self.root = os.path.join(self.top, "PyBox")
        shutil.copytree(REPO, self.root, ignore=SKIP)
        for n in os.listdir(os.path.join(self.root, "mechanism_files")):
            os.remove(os.path.join(self.root, "mechanism_files", n))
        self.count = 0

    def mechanism(self, name, text):
        with open(os.path.join(self.root, "mechanism_files", name + ".eqn.txt"), "w", encoding="utf8") as f:
            f.write(text)

    def write(self, rel, text):
        with open(os.path.join(self.root, rel), "w", encoding="utf8") as f:
            f.write(text)

    def can_set(self, rel, name):
        try:
            with open(os.path.join(self.root, rel), encoding="utf8") as f:
                return assign(f.read(), name, "x")[1] == 1
        except OSError:
            return False

    def run(self, rel, solver, edit=None, jit=False, aerosol=False, timeout=400, settings=None, dry=False):
        """Run a driver as a user would who edits its settings. edit: (pattern, replacement), and None is returned when it finds no
        place; settings: {name: value} to assign instead, of which those that have one place are made and listed in the record;
        dry: stop where the solver would start, and look at what it is given only."""
        d, script = os.path.split(os.path.join(self.root, rel))
        made = {}
        if not os.path.exists(os.path.join(d, script)):
            return {"error": "an earlier run removed the script", "settings": made, "dry": dry, "dir": d}
        with open(os.path.join(d, script), encoding="utf8") as f:
            src = f.read()
        for name, value in (settings or {}).items():
            new, n = assign(src, name, value)
            if n == 1:
                src, made[name] = new, value
        if edit is not None:
            src, n = re.subn(edit[0], edit[1], src)
            if n != 1:
                return None
        if edit is not None or made:
            script = "edited_" + script
            with open(os.path.join(d, script), "w", encoding="utf8") as f:
                f.write(src)
        self.count += 1
        out = os.path.join(self.top, "record%d.pickle" % self.count)
        code = RUNNER % {"script": script, "solver": solver, "out": out, "aerosol": aerosol, "dry": dry,
                         "order": ORDER[os.path.join(os.path.dirname(rel), solver + ".py")]}
        try:
            p = gen.run_python(code, d, jit=jit, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise SutError("the driver " + rel, TimeoutError("it did not finish in %d s" % timeout))
        if p.returncode < 0 and not os.path.exists(out):
            raise SutError("the driver " + rel, RuntimeError("signal %d ended it: %s" % (-p.returncode, p.stderr[-600:])))
        if not os.path.exists(out):
            raise Inconclusive("the driver's recorder failed: " + p.stderr[-600:])
        with open(out, "rb") as f:
            r = pickle.load(f)
        if r["error"] and r["error"].startswith("INCONCLUSIVE"):
            raise Inconclusive(r["error"])
        r["dir"] = d
        r["settings"], r["dry"] = made, dry
        if not r["error"] and "args" not in r:
            r["error"] = "the script ends without starting the simulation"
        return r


def settings_reach(ctx, label, rec, w):
    """The conditions a user sets in the script are those the solver is given."""
    a, s = rec["args"], rec["settings"]
    for name, arg, scale in (("temp", "temp", 1.0), ("RH", "RH", 1.0), ("hour_of_day", "start_time", 3600.0),
                             ("simulation_time", "simulation_time", 1.0), ("batch_step", "batch_step", 1.0)):
        if name in s:
            ctx.expect_close("setting-" + label, "%s: %s, which the user set" % (label, name), a[arg], s[name] * scale, 1e-12, **w)
            ctx.count("settings_checked")
        else:
            left_alone(ctx, label, name, a[arg], w)
    conc = rec["input"].get("species_initial_conc")
    for name in INITIAL if conc is not None else ():
        x = name.partition("['")[2].rstrip("]'")
        if name not in s and x in conc:
            left_alone(ctx, label, "the mixing ratio of " + x, conc[x], w)
    for name in s:
        x = name.partition("['")[2].rstrip("]'")
        if x and conc is not None:
            ctx.expect_close("setting-" + label, "%s: the mixing ratio of %s, which the user set" % (label, x), conc.get(x, 0.0), s[name], 1e-12, **w)
            ctx.count("settings_checked")


def left_alone(ctx, label, name, value, w):
    """What a user leaves as it is in the script does not depend on what else is set."""
    first = ctx.__dict__.setdefault("defaults", {}).setdefault((label, name), (float(value), w))
    ctx.expect_close("default-" + label, "%s: %s, which the user left as it is in the script" % (label, name), value, first[0], 1e-12,
                     another_run=first[1], **w)
    ctx.count("defaults_compared")


INITIAL = "species_initial_conc['O3']", "species_initial_conc['APINENE']"


def shipped(k):
    """A mechanism PyBox comes with, of those that have the species its drivers name."""
    found = [x for x in mm.shipped() if x[0] != cases.BIG and {"APINENE", "O3"} <= set(mm.load_shipped(x[1]).species)]
    return found[k % len(found)]


def mechanism(g, extra=10, water=False):
    """Something with the species the drivers name, in a random order, and gentle enough to integrate quickly."""
    from .checks.c19 import gentle
    R = mm.Reaction
    rs = [R([("APINENE", 1.0), ("O3", 1.0)], [("C107O2", 0.6), ("PINONIC", 0.3), ("OH", 0.8)], "8.05E-16*EXP(-640/TEMP)*%g" % g.uniform(5, 30)),
          R([("C107O2", 1.0), ("HO2", 1.0)], [("C107OOH", 1.0)], "%.2fE-13*EXP(%d/TEMP)" % (g.uniform(1, 4), int(g.integers(600, 1300)))),
          R([("C107O2", 1.0)], [("PINONIC", 1.0)], "%.1fE-14*RO2" % g.uniform(1, 9)),
          R([("OH", 1.0), ("APINENE", 1.0)], [("APINAO2", 1.0)], "1.2E-11*EXP(440/TEMP)*0.01"),
          R([("APINAO2", 1.0)], [("HO2", 1.0), ("APINANO3", 0.2)], "%.1fE-13*RO2+%.1fD-3" % (g.uniform(1, 9), g.uniform(1, 9))),
          R([("O3", 1.0), ("hv", 1.0)], [("OH", 1.0)], "J(%d)" % int(g.choice([1, 2]))),
          R([("C107OOH", 1.0), ("hv", 1.0)], [("PINONIC", 0.5), ("OH", 1.0)], "J(41)"),
          R([("OH", 2.0)], [("HO2", 1.0)], "1.0E-13")]
    names = ["APINENE", "O3", "OH", "HO2", "PINONIC", "C107OOH", "APINANO3", "NO2", "HCHO", "CH3O2", "C96CO3", "CO"]
    m2 = mm.random_mech(g, extra, 9, names=list(names), special=False, closed=True)
    if water:           # what the model prescribes may be written out as well
        rs += [R([("OH", 1.0), ("HO2", 1.0)], [("H2O", 1.0), ("O2", 1.0)], "4.8E-11*EXP(250/TEMP)"),
               R([("PINONIC", 1.0), ("H2O", 1.0)], [("C107OOH", 0.5)], "%.2fE-21" % g.uniform(0.5, 4)),
               R([("C107O2", 1.0), ("O2", 1.0)], [("APINANO3", 1.0), ("AIR", 1.0)], "1.0E-20")]
    m = mm.Mech([rs[i] for i in g.permutation(len(rs))] + m2.reactions)
    out = [m.reactions[i] for i in g.permutation(len(m.reactions))]
    return gentle(mm.Mech(out), g)
