import ctypes
import faulthandler
import importlib
import os
import signal
import sys

from . import core


def setup():
    """Nothing is prebuilt: the checks build from the tree they judge. This says whether what they need is here."""
    import shutil
    missing = [t for t in ("gcc", "gfortran", "f2py") if shutil.which(t) is None]
    for m in ("numpy", "scipy", "numba", "pandas", "matplotlib"):
        try:
            importlib.import_module(m)
        except ImportError:
            missing.append(m)
    print("missing: %s" % ", ".join(missing) if missing else "everything the checks need is installed")
    return 0


def supervise(prop, child):
    """The check runs in a process of its own, as the code it judges is partly native: a crash there is a verdict too."""
    _, status = os.waitpid(child, 0)
    if os.WIFEXITED(status):
        return os.WEXITSTATUS(status)
    sig = os.WTERMSIG(status)
    if sig not in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
        sys.stderr.write("signal %d ended the check, no verdict\n" % sig)
        return 3
    ctx = core.Ctx(prop)
    ctx.scratch = ""
    try:
        ctx.violation("crash", "signal %d: generated native code called in the check's process crashed it" % sig)
    except core.Stop:
        pass
    return core.finish(ctx, None)


def main():
    if len(sys.argv) != 2:
        sys.stderr.write("usage: check <property id>\n")
        return 3
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    child = os.fork()
    if child:
        return supervise(prop, child)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # it does not outlive this process
    faulthandler.enable()
    mod = importlib.import_module("pyboxmon.checks." + prop.lower())
    return core.run(prop, mod.check, getattr(mod, "LEVEL", "exploration"))


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
