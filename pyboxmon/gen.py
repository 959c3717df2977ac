"""Running PyBox's generators on a mechanism text and making the generated code callable."""
import contextlib
import ctypes
import io
import os
import subprocess
import sys
import types
from concurrent.futures import ThreadPoolExecutor

import numpy as np
from scipy.sparse import csr_matrix

from . import mech as mm
from . import sut
from .core import Inconclusive, SutError

USER_FLAGS = ("-O3", "-ffast-math", "-fopenmp")
FAST_FLAGS = ("-O0", "-fopenmp")
_counter = [0]
POOL = ThreadPoolExecutor(8)
LONG = ThreadPoolExecutor(6)      # jobs that must not keep compilations waiting; they never change directory


def private_dict(d):
    """An independent copy of one of the parser's nested dictionaries."""
    out = type(d)() if not hasattr(d, "default_factory") else type(d)(d.default_factory)
    for k, v in d.items():
        out[k] = private_dict(v) if isinstance(v, dict) else v
    return out


def exec_file(path, name):
    with open(path, encoding="utf8") as f:
        src = f.read()
    ns = {"__name__": name, "__file__": path}
    try:
        with sut.quiet():
            exec(compile(src, path, "exec"), ns)
    except Exception as e:
        raise SutError("loading " + os.path.basename(path), e)
    return ns


def compile_fortran(src, flags=FAST_FLAGS, so=None, extra=()):
    so = so or src[:-4] + "_%d.so" % _counter[0]
    _counter[0] += 1
    try:
        p = subprocess.run(["gfortran", "-shared", "-fPIC", "-w", *flags, src, *extra, "-o", so, "-lgomp"],
                           capture_output=True, text=True, cwd=os.path.dirname(src) or ".", timeout=240)
    except subprocess.TimeoutExpired:
        raise Inconclusive("gfortran did not finish on " + os.path.basename(src))
    if p.returncode:
        raise SutError("gfortran " + os.path.basename(src), RuntimeError(p.stderr[-1500:]))
    return so


class Library:
    """One generated Fortran subroutine behind its f2py calling convention."""

    def __init__(self, so, symbol):
        self.lib = ctypes.CDLL(so)
        try:
            self.fn = getattr(self.lib, symbol + "_")
        except AttributeError as e:
            raise SutError("symbol " + symbol, e)
        self.fn.restype = None

    def __call__(self, args, out, fill=np.nan):
        """args: scalars or arrays; out: shape of the single result."""
        if isinstance(out, tuple) and len(out) == 2:
            res = np.full(out, fill, order="F")
        else:
            res = np.full(out, fill)
        cargs, keep = [], []
        for a in args:
            if np.ndim(a) == 0:
                c = ctypes.c_double(float(a))
                cargs.append(ctypes.byref(c))
            else:
                c = np.require(a, np.float64, ["C", "A"])
                cargs.append(c.ctypes.data_as(ctypes.c_void_p))
            keep.append(c)
        cargs.append(res.ctypes.data_as(ctypes.c_void_p))
        self.fn(*cargs)
        return res


class Numba:
    """The generated numba modules, called as ODE_solver.py calls them."""

    def __init__(self, m, parts):
        self.m = m
        d = m.dir
        if "rates" in parts:
            self._rates = exec_file(d + "/Rate_coefficients_numba.py", "Rate_coefficients_numba")["evaluate_rates"]
        if "reactants" in parts:
            self._reactants = exec_file(d + "/Reactants_conc_numba.py", "Reactants_conc_numba")["reactants"]
        if "dydt" in parts:
            self._dydt = exec_file(d + "/Loss_Gain_numba.py", "Loss_Gain_numba")["dydt"]
        if "jacobian" in parts:
            self._jac = exec_file(d + "/Jacobian_numba.py", "Jacobian_numba")["jacobian"]

    def rates(self, t, RO2, H2O, T):
        return np.array(sut.call("numba evaluate_rates", self._rates, t, RO2, H2O, T, np.zeros(self.m.m), np.zeros(63)))

    def reactants(self, y):
        return np.array(sut.call("numba reactants", self._reactants, np.array(y, float), self.m.m, np.zeros(self.m.m)))

    def dydt(self, r):
        return np.array(sut.call("numba dydt", self._dydt, np.zeros(self.m.n), np.array(r, float)))

    def jacobian(self, k, y):
        return np.array(sut.call("numba jacobian", self._jac, np.array(k, float), np.array(y, float),
                                 np.zeros((self.m.n, self.m.n))))


class Fortran:
    """The generated Fortran subroutines, compiled; called as f2py/ODE_solver.py calls them."""
    FILES = {"rates": ("Rate_coefficients.f90", "evaluate_rates"), "reactants": ("Reactants_conc.f90", "reactants"),
             "dydt": ("Loss_Gain.f90", "loss_gain"), "jacobian": ("Jacobian.f90", "jacobian")}

    def __init__(self, m, parts, flags=FAST_FLAGS):
        self.m = m
        jobs = {p: POOL.submit(compile_fortran, os.path.join(m.dir, self.FILES[p][0]), flags) for p in parts}
        self.so = {p: j.result() for p, j in jobs.items()}
        self.lib = {p: Library(so, self.FILES[p][1]) for p, so in self.so.items()}

    def rates(self, t, RO2, H2O, T, fill=np.nan):
        return self.lib["rates"]((RO2, H2O, T, t), self.m.m, fill)

    def reactants(self, y, fill=np.nan):
        return self.lib["reactants"]((np.asarray(y, float),), self.m.m, fill)

    def dydt(self, r, fill=np.nan):
        return self.lib["dydt"]((np.asarray(r, float),), self.m.n, fill)

    def jacobian(self, k, y, fill=np.nan):
        return self.lib["jacobian"]((np.asarray(k, float), np.asarray(y, float)), (self.m.n, self.m.n), fill)


class Model:
    """What PyBox makes of one mechanism text, in a directory of its own."""

    def __init__(self, ctx, text, tag, name="mech", filename=None):
        self.ctx = ctx
        self.name = name
        self.dir = os.path.join(ctx.scratch, tag)
        os.makedirs(self.dir, exist_ok=True)
        self.text = text
        self.file = os.path.join(self.dir, filename or name + ".eqn.txt")
        with open(self.file, "w", encoding="utf8", newline="") as f:
            f.write(text)
        with sut.cwd(self.dir):
            self.out = sut.call("extract_mechanism", sut.parse_module().extract_mechanism,
                                os.path.basename(self.file), {"Full_eqn": 0})
        self.index = {s: int(i) for s, i in self.out["species_dict2array"].items()}
        self.m = int(self.out["max_equations"])
        self.n = len(self.out["species_dict"])

    def bound(self, mech):
        """The reference over the model's own ordering; the species must be the same set, once each."""
        if self.m != len(mech) or set(self.index) != set(mech.species) or \
                sorted(self.index.values()) != list(range(len(mech.species))) or \
                {self.index.get(s): s for s in self.index} != {int(k): v for k, v in self.out["species_dict"].items()}:
            self.ctx.violation(
                "species-table",
                "the parsed mechanism has %d equations and species %s; the file has %d equations, missing %s, extra %s"
                % (self.m, len(self.index), len(mech), sorted(set(mech.species) - set(self.index))[:5],
                   sorted(set(self.index) - set(mech.species))[:5]), mechanism=mech.as_text()[:40])
            return None
        return mech.bind(self.index)

    # ---- writers -----------------------------------------------------------
    def write_numba(self, parts=("rates", "reactants", "dydt", "jacobian"), converted=1):
        P, C, o = sut.parse_module(), sut.conv_module(), self.out
        with sut.cwd(self.dir):
            if "rates" in parts:
                rd = private_dict(o["rate_dict"])
                for _ in range(converted):
                    rd = sut.call("convert_rate_mcm_numba", C.convert_rate_mcm_numba, rd)
                sut.call("write_rate_file_numba", P.write_rate_file_numba, self.name, rd)
            if "reactants" in parts:
                sut.call("write_reactants_indices", P.write_reactants_indices, self.name, self.m, self.n,
                         o["species_dict2array"], o["rate_dict_reactants"], o["loss_dict"])
            if "dydt" in parts:
                sut.call("write_loss_gain_matrix", P.write_loss_gain_matrix, self.name, self.m, self.n,
                         o["loss_dict"], o["gain_dict"], o["species_dict2array"])
            if "jacobian" in parts:
                sut.call("write_gas_jacobian_numba", P.write_gas_jacobian_numba, self.name, self.m, self.n,
                         o["loss_dict"], o["gain_dict"], o["species_dict2array"], o["rate_dict_reactants"])
        return self

    def write_fortran(self, parts=("rates", "reactants", "dydt", "jacobian"), openmp=False, converted=2):
        P, C, o = sut.parse_module(), sut.conv_module(), self.out
        with sut.cwd(self.dir):
            if "rates" in parts:
                rd = private_dict(o["rate_dict"])
                for _ in range(converted):
                    rd = sut.call("convert_rate_mcm_fortran", C.convert_rate_mcm_fortran, rd)
                sut.call("write_rate_file_fortran", P.write_rate_file_fortran, self.name, rd, openmp)
            if "reactants" in parts:
                sut.call("write_reactants_indices_fortran", P.write_reactants_indices_fortran, self.name, self.m,
                         o["species_dict2array"], o["rate_dict_reactants"], o["loss_dict"], openmp)
            if "dydt" in parts:
                sut.call("write_loss_gain_fortran", P.write_loss_gain_fortran, self.name, self.m, self.n,
                         o["loss_dict"], o["gain_dict"], o["species_dict2array"], openmp)
            if "jacobian" in parts:
                sut.call("write_gas_jacobian_fortran", P.write_gas_jacobian_fortran, self.name, self.m, self.n,
                         o["loss_dict"], o["gain_dict"], o["species_dict2array"], o["rate_dict_reactants"], openmp)
        return self

    def numba(self, parts=("rates", "reactants", "dydt", "jacobian"), converted=1):
        self.write_numba(parts, converted)
        return Numba(self, parts)

    def fortran(self, parts=("rates", "reactants", "dydt", "jacobian"), openmp=False, flags=FAST_FLAGS, converted=2):
        self.write_fortran(parts, openmp, converted)
        return Fortran(self, parts, flags)

    # ---- data files --------------------------------------------------------
    def sparse(self, stem):
        path = os.path.join(self.dir, "%s_%s.npz" % (stem, self.name))
        try:
            z = np.load(path)
            return csr_matrix((z["data"], z["indices"], z["indptr"]), shape=tuple(z["shape"]))
        except Exception as e:
            raise SutError("loading " + os.path.basename(path), e)

    def ro2_indices(self):
        with sut.cwd(self.dir):
            sut.call("write_RO2_indices", sut.parse_module().write_RO2_indices, self.name,
                     self.out["species_dict2array"])
            return sut.call("loading RO2 indices", np.load, self.name + "_RO2_indices.npy")

    def npy(self, stem):
        path = os.path.join(self.dir, self.name + stem + ".npy")
        return sut.call("loading " + stem, np.load, path, allow_pickle=True)


def concentrations(g, n, zeros=0.1, tiny=0.1):
    y = 10.0 ** g.uniform(3, 13, n)
    u = g.random(n)
    y[u < zeros] = 0.0
    y[(u >= zeros) & (u < zeros + tiny)] = 10.0 ** g.uniform(-8, 0)
    return y


def environment(g, day=False):
    """t [s], RO2, H2O [molecules/cc], T [K]."""
    t = float(g.uniform(6 * 3600, 17 * 3600)) if day else float(g.uniform(0, 3 * 86400))
    return t, float(10 ** g.uniform(6, 11)), float(10 ** g.uniform(15, 17.8)), float(g.uniform(255, 315))


def f2py_build(directory, module, source, timeout=300):
    """The command line PyBox's own drivers run."""
    p = subprocess.run('f2py -c -m %s %s --f90flags="-O3 -ffast-math -fopenmp" -lgomp' % (module, source),
                       shell=True, cwd=directory, capture_output=True, text=True, timeout=timeout)
    if p.returncode or not any(f.startswith(module) and f.endswith(".so") for f in os.listdir(directory)):
        raise SutError("f2py " + source, RuntimeError((p.stdout + p.stderr)[-1500:]))


def run_python(code, directory, jit=False, timeout=600, env=None):
    """Run a script in a fresh interpreter; jit=True compiles the numba code for real."""
    e = dict(os.environ)
    if jit:
        e.pop("NUMBA_DISABLE_JIT", None)
    e["PYBOX_REPO"] = os.environ.get("PYBOX_REPO", "/repo")
    e.update(env or {})
    return subprocess.run([sys.executable, "-c", code], cwd=directory, env=e, capture_output=True, text=True,
                          timeout=timeout)
