"""Loading and calling the code under test from the repository's working tree."""
import builtins
import contextlib
import importlib.util
import io
import os
import sys
import time
import types

import numpy

from .core import REPO, Inconclusive, Stop, SutError, active

_real_open = builtins.open
_real_save = numpy.save


def install_compat():
    """What PyBox expects of Python <= 3.10, numpy < 1.24 and Open Babel 2 (its pinned environment)."""
    if getattr(builtins.open, "_pyboxmon", False):
        return

    def open_universal(file, mode="r", *args, **kwargs):
        if isinstance(mode, str) and sorted(mode) == ["U", "r"]:
            mode = "r"
        return _real_open(file, mode, *args, **kwargs)

    open_universal._pyboxmon = True

    def save_ragged(file, arr, *args, **kwargs):
        if isinstance(arr, list):
            try:
                arr = numpy.array(arr)
            except ValueError as e:
                if "inhomogeneous" not in str(e):
                    raise
                ragged = numpy.empty(len(arr), dtype=object)
                for i, row in enumerate(arr):
                    ragged[i] = row
                arr = ragged
        return _real_save(file, arr, *args, **kwargs)

    builtins.open = open_universal
    numpy.save = save_ragged
    if "pybel" not in sys.modules:
        try:
            from openbabel import pybel
            pybel.ob.obErrorLog.StopLogging()
            sys.modules["pybel"] = pybel
        except ImportError:
            sys.modules["pybel"] = types.ModuleType("pybel")


_loaded = {}


def load(rel, name=None, fresh=False):
    """Import one source file of the repository under a private name."""
    install_compat()
    name = name or "sut_" + rel.replace("/", "_").replace(".py", "")
    if not fresh and name in _loaded:
        return _loaded[name]
    path = os.path.join(REPO, rel)
    # a script's own directory comes first, as when Python runs it from there
    own = os.path.dirname(path)
    sys.path[:] = [own] + [d for d in sys.path if d not in (REPO, own)] + ([REPO] if own != REPO else [])
    for shared in ("Plotting", "ODE_solver"):
        sys.modules.pop(shared, None)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    try:
        with quiet():
            spec.loader.exec_module(mod)
    except Exception as e:
        raise SutError("import " + rel, e)
    _loaded[name] = mod
    return mod


@contextlib.contextmanager
def quiet():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out


class Out(dict):
    """What the code under test returned; an entry its documentation names and that is not there is a finding."""

    what = "?"

    def __missing__(self, key):
        raise SutError("what %s returns" % self.what, KeyError(key))


def call(what, fn, *args, **kwargs):
    """Call the code under test; whatever it raises on an input of its domain is a finding."""
    token = object()
    active[token] = what, time.monotonic(), time.process_time()
    try:
        with quiet():
            out = fn(*args, **kwargs)
        if type(out) is dict:
            out = Out(out)
            out.what = what
        return out
    except (SutError, Stop, Inconclusive):
        raise
    except Exception as e:
        raise SutError(what, e)
    finally:
        del active[token]


def parse_module():
    return load("Parse_eqn_file.py")


def conv_module():
    return load("rate_coeff_conversion.py")


@contextlib.contextmanager
def cwd(path):
    old = os.getcwd()
    os.makedirs(path, exist_ok=True)
    os.chdir(path)
    try:
        yield path
    finally:
        os.chdir(old)
