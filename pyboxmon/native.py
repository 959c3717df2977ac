"""Generated Fortran as stand-alone executables: race detection and memory checking."""
import os
import shutil
import struct
import subprocess

import numpy as np

from .core import ROOT, Inconclusive, SutError

N = os.path.join(ROOT, "native")


def _run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=kw.pop("timeout", 240), **kw)


def build(src, symbol, out, flags, shim=False, what=None):
    """Fortran source + driver (+ shim) -> executable; a Fortran compile error is the code's, the rest is ours."""
    d = os.path.dirname(out)
    o = out + ".f.o"
    p = _run(["gfortran", "-c", "-w", *flags, src, "-o", o, "-J", d])
    if p.returncode:
        raise SutError("gfortran " + os.path.basename(src), RuntimeError(p.stderr[-1500:]))
    cflags = [f for f in flags if f.startswith("-fsanitize") or f in ("-g",)]
    c = out + ".c.o"
    p = _run(["gcc", "-c", "-w", "-g", *cflags, "-DSYM=%s_" % symbol, os.path.join(N, "driver.c"), "-o", c])
    if p.returncode:
        raise Inconclusive("driver: " + p.stderr[-500:])
    objs = [o, c]
    if shim:
        s = os.path.join(d, "shim%s.o" % ("t" if cflags else ""))
        if not os.path.exists(s):
            p = _run(["gcc", "-c", "-w", "-O1", "-g", os.path.join(N, "gompshim.c"), "-o", s])
            if p.returncode:
                raise Inconclusive("shim: " + p.stderr[-500:])
        objs.append(s)
    p = _run(["gcc", *cflags, *objs, "-o", out, "-lgfortran", "-lm", "-lpthread", *([] if shim else ["-lgomp"])])
    if p.returncode:
        if shim and "undefined reference to `GOMP" in p.stderr:
            raise Inconclusive("the code uses an OpenMP construct the shim lacks: " + p.stderr[-300:])
        raise SutError("link " + os.path.basename(src), RuntimeError(p.stderr[-1500:]))
    return out


def pack(path, args, outs, repeats=1, fill=np.nan):
    """args: in order, arrays or scalars; outs: sizes of the trailing results."""
    with open(path, "wb") as f:
        f.write(struct.pack("<qq", len(args) + len(outs), repeats))
        for a in args:
            a = np.ascontiguousarray(a)
            if a.dtype != np.int64:
                a = a.astype(np.float64)
            b = a.tobytes()
            f.write(struct.pack("<qq", 0, len(b)) + b)
        for n in outs:
            b = np.full(n, fill).tobytes()
            f.write(struct.pack("<qq", 1, len(b)) + b)


def unpack(path, outs, repeats=1):
    raw = np.fromfile(path)
    per = int(sum(outs))
    if raw.size != per * repeats:
        return None
    rows, cuts = raw.reshape(repeats, per), np.cumsum(outs)[:-1]
    return [np.split(r, cuts) for r in rows]


def execute(exe, inp, outs, repeats=1, env=None, prefix=(), timeout=240):
    e = dict(os.environ)
    e.pop("OMP_NUM_THREADS", None)
    e.update(env or {})
    res = exe + ".out"
    try:
        p = _run([*prefix, exe, inp, res], env=e, cwd=os.path.dirname(exe), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("timeout of " + os.path.basename(exe))
    return p, unpack(res, outs, repeats) if os.path.exists(res) else None


class Races:
    """A race detector proven to work in this environment by a racy and a clean program."""
    TSAN = ("-O1", "-g", "-fopenmp", "-fsanitize=thread")
    PLAIN = ("-O1", "-g", "-fopenmp")

    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = os.path.join(ctx.scratch, "races")
        os.makedirs(self.dir, exist_ok=True)
        self.mode = None
        for mode in ("tsan", "tsan-norandom", "helgrind"):
            self.mode = mode
            try:
                if self._control():
                    ctx.count("detector_" + mode)
                    return
            except (Inconclusive, SutError, OSError, subprocess.SubprocessError):
                pass
        self.mode = None
        raise Inconclusive("no race detector works here")

    def _control(self):
        y = np.arange(64.0)
        seen = []
        for name in ("racy", "clean"):
            exe = self.build(os.path.join(N, name + ".f90"), name, "control_%s_%s" % (name, self.mode))
            inp = exe + ".in"
            pack(inp, [y], [64])
            p, o = self.execute(exe, inp, [64], 4)
            seen.append(self.races(p))
            if name == "clean" and (p.returncode or o is None or o[0][0][0] != y.sum()):
                return False
        return bool(seen[0]) and not seen[1]

    def build(self, src, symbol, name):
        flags = self.PLAIN if self.mode == "helgrind" else self.TSAN
        return build(src, symbol, os.path.join(self.dir, name), flags, shim=True)

    def execute(self, exe, inp, outs, threads, repeats=1, timeout=240):
        prefix = {"tsan": (), "tsan-norandom": ("setarch", "-R"), "helgrind": ("valgrind", "--tool=helgrind", "-q")}[self.mode]
        env = {"SHIM_THREADS": str(threads), "TSAN_OPTIONS": "halt_on_error=0 exitcode=66 report_bugs=1 history_size=4"}
        return execute(exe, inp, outs, repeats, env, prefix, timeout)

    @staticmethod
    def races(p):
        """Text of the first race report, if any."""
        for mark in ("WARNING: ThreadSanitizer: data race", "Possible data race"):
            i = p.stderr.find(mark)
            if i >= 0:
                return p.stderr[i:i + 1500]
        return ""


class Memory:
    """Memory checkers, each proven here by a program with a stray write."""
    CHECKED = ("-O0", "-g", "-fopenmp", "-fcheck=bounds,do,mem,pointer", "-fsanitize=address,undefined",
               "-finit-real=snan", "-finit-integer=-7777777")
    INIT_A = ("-O0", "-g", "-fopenmp", "-finit-real=inf", "-finit-integer=3")
    INIT_B = ("-O1", "-g", "-fopenmp", "-finit-real=nan", "-finit-integer=-99999")
    PLAIN = ("-O1", "-g", "-fopenmp")

    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = os.path.join(ctx.scratch, "memory")
        os.makedirs(self.dir, exist_ok=True)
        self.prefix = None
        exe = build(os.path.join(N, "stray.f90"), "stray", os.path.join(self.dir, "stray"), self.CHECKED[:1] + self.CHECKED[2:3] + ("-fsanitize=address,undefined",))
        pack(exe + ".in", [np.arange(64.0)], [64])
        for prefix in ((), ("setarch", "-R")):
            try:
                p, _ = self.run(exe, [64], prefix=prefix)
            except (Inconclusive, OSError):
                continue
            if "heap-buffer-overflow" in p.stderr:
                self.prefix = prefix
                ctx.count("asan_control")
                break
        self.valgrind = False
        exe = build(os.path.join(N, "stray.f90"), "stray", os.path.join(self.dir, "strayv"), self.PLAIN)
        pack(exe + ".in", [np.arange(64.0)], [64])
        try:
            p, _ = self.run(exe, [64], prefix=self.VALGRIND)
            self.valgrind = "Invalid write" in p.stderr
            ctx.count("valgrind_control", self.valgrind)
        except (Inconclusive, OSError):
            pass
        if self.prefix is None and not self.valgrind:
            raise Inconclusive("no memory checker works here")

    VALGRIND = ("valgrind", "-q", "--error-exitcode=99", "--track-origins=no")

    def run(self, exe, outs, prefix=(), threads=2):
        env = {"OMP_NUM_THREADS": str(threads), "ASAN_OPTIONS": "detect_leaks=0:exitcode=98:abort_on_error=0",
               "UBSAN_OPTIONS": "print_stacktrace=1"}
        return execute(exe, exe + ".in", outs, 1, env, prefix)

    @staticmethod
    def complaint(p):
        for mark in ("ERROR: AddressSanitizer", "runtime error:", "Fortran runtime error", "== Invalid ", "uninitialised",
                     "input argument", "SIGSEGV", "SIGBUS"):
            i = p.stderr.find(mark)
            if i >= 0:
                return p.stderr[max(0, i - 100):i + 1200]
        return "" if p.returncode == 0 else "exit status %d: %s" % (p.returncode, p.stderr[-600:])
