"""Run context of one check: scratch space, seed, counters, verdict, evidence."""
import json
import os
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYBOX_REPO", "/repo")
MAX_REPORTED = 5


class Stop(Exception):
    """Enough violations were seen; finish the run."""


class Inconclusive(Exception):
    """The monitor could not decide; neither held nor violated."""


class SutError(Exception):
    """The code under test raised on an input inside its domain."""

    def __init__(self, what, exc):
        super().__init__("%s raised %s: %s" % (what, type(exc).__name__, exc))
        self.what = what
        self.exc = exc
        self.tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-4000:]


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return [_jsonable(v) for v in x.tolist()]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return repr(float(x))
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.monotonic()
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.notes = []
        self.violations = []
        self.known_hit = {}
        self.assumptions = []
        self.rule = ""
        self.need = {}
        self.scratch = None
        self.known = load_known(prop)
        self._case = 0

    # ---- sizes -----------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self, quick=90.0, thorough=700.0):
        """Seconds left of this tier's soft budget."""
        return (thorough if self.thorough else quick) - (time.monotonic() - self.t0)

    def rng(self, *tag):
        key = zlib.crc32(repr((self.prop,) + tag).encode())
        return np.random.Generator(np.random.PCG64([self.seed & 0xFFFFFFFF, key]))

    # ---- counting --------------------------------------------------------
    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + int(k)

    def case(self, key=None, sample=None, nontrivial=True):
        """One case ran to the end and every oracle looked at it."""
        self._case += 1
        if nontrivial:
            self.distinct.add(zlib.crc32(repr(key if key is not None else self._case).encode()))
        if sample is not None and len(self.samples) < 4:
            self.samples.append(_jsonable(sample))

    def note(self, text):
        if len(self.notes) < 6:
            self.notes.append(str(text)[:800])

    def require(self, name, least=1):
        self.need[name] = least

    # ---- verdicts --------------------------------------------------------
    def violation(self, key, what, **witness):
        """key names the mechanism of the failure, so that a listed finding can be told from a new one."""
        if key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.violations.append({"key": key, "what": what, "witness": _jsonable(witness)})
        if len(self.violations) >= MAX_REPORTED:
            raise Stop()

    def sut_error(self, e, **witness):
        self.violation("raises:" + e.what, str(e), traceback=e.tb, **witness)

    def expect_close(self, key, what, got, want, rtol, atol=0.0, **witness):
        got = np.asarray(got, float)
        want = np.asarray(want, float)
        if got.shape != want.shape:
            self.violation(key, "%s: shape %s, expected %s" % (what, got.shape, want.shape), **witness)
            return False
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
            bad &= ~((got == want) | (np.isnan(got) & np.isnan(want)))
        if bad.any():
            where = [tuple(int(i) for i in ix) for ix in np.argwhere(bad)[:5]]
            self.violation(
                key,
                "%s: %d of %d values differ, first at %s: got %r, expected %r"
                % (what, int(bad.sum()), got.size, where[0], float(got[where[0]]), float(want[where[0]])),
                where=where, got=[got[i] for i in where], want=[want[i] for i in where], **witness)
            return False
        return True


def load_known(prop):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            if line.startswith("finding: property=%s " % prop):
                rest = line.strip().split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out[key.replace("key=", "", 1)] = text
    return out


active = {}          # calls into the code under test that have not returned: id -> (what, wall, cpu)
STUCK = {"quick": 240.0, "thorough": 1500.0}
MEMORY = 14e9


def rss():
    try:
        with open("/proc/self/statm") as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
    except (OSError, ValueError, IndexError):
        return 0


def _watch(ctx):
    """A call that neither returns nor raises: judged on the processor time it used, so that a slow machine is no alarm."""
    while True:
        time.sleep(2)
        for what, wall, cpu in list(active.values()):
            why = None
            if min(time.monotonic() - wall, time.process_time() - cpu) > STUCK[ctx.tier]:
                why = "%s has not returned after %d s" % (what, time.monotonic() - wall)
            elif rss() > MEMORY:
                why = "%s has used %.0f GB of memory" % (what, rss() / 1e9)
            if why:
                try:
                    ctx.violation("stuck:" + what, why)
                except Stop:
                    pass
                rc = finish(ctx, None)
                _leave(ctx, rc)


def say(text):
    sys.__stdout__.write(text + "\n")       # not what a call into the code under test has redirected


def _leave(ctx, rc):
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.__stdout__.flush()
    sys.__stderr__.flush()
    os._exit(rc)


def _watchdog(signum, frame):
    sys.__stderr__.write("watchdog: the check ran out of time, no verdict\n")
    sys.__stderr__.flush()
    os._exit(3)


def run(prop, fn, level="exploration"):
    ctx = Ctx(prop, level)
    signal.signal(signal.SIGALRM, _watchdog)
    signal.alarm(860 if not ctx.thorough else 3000)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ctx.scratch = tempfile.mkdtemp(prefix="pyboxmon-%s-" % prop)
    threading.Thread(target=_watch, args=(ctx,), daemon=True).start()
    note = None
    here = os.getcwd()
    try:
        os.chdir(ctx.scratch)
        try:
            fn(ctx)
        except Stop:
            pass
        except SutError as e:
            try:
                ctx.sut_error(e)
            except Stop:
                pass
        except Inconclusive as e:
            note = str(e)
        except Exception:  # the harness itself failed
            traceback.print_exc()
            note = "harness error"
    finally:
        os.chdir(here)
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    return finish(ctx, note)


def finish(ctx, note):
    prop = ctx.prop
    missing = ["%s=%d<%d" % (k, ctx.counts.get(k, 0), v) for k, v in ctx.need.items()
               if ctx.counts.get(k, 0) < v]
    coverage = {
        "evaluations": ctx._case,
        "distinct_nontrivial": len(ctx.distinct),
        "rule": ctx.rule,
        "samples": ctx.samples,
        "observed": dict(sorted(ctx.counts.items())),
    }
    if ctx.notes:
        coverage["notes"] = ctx.notes
    if ctx.known_hit:
        coverage["known_findings"] = sorted(ctx.known_hit)
    if note or missing:
        coverage["inconclusive"] = "; ".join(([note] if note else []) + missing)
    ev = {
        "property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level,
        "coverage": coverage, "assumptions": ctx.assumptions,
        "wall_s": round(time.monotonic() - ctx.t0, 3), "violations": len(ctx.violations),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key, text in sorted(ctx.known_hit.items()):
        say("KNOWN-FINDING: property=%s %s %s" % (prop, key, text))
    if ctx.violations:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        path = os.path.join(ROOT, "replay", "%s-%s-%d.json" % (prop, ctx.tier, ctx.seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": ctx.tier, "seed": ctx.seed,
                       "rerun": "VERIF_SEED=%d VERIF_TIER=%s ./check %s" % (ctx.seed, ctx.tier, prop),
                       "violations": ctx.violations}, f, indent=1)
        for v in ctx.violations:
            say("  %s: %s" % (v["key"], v["what"][:600]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if note or missing:
        say("inconclusive: %s" % coverage["inconclusive"])
        return 2
    say("%s held on %d cases (%d distinct) in %.1f s; observed %s"
          % (prop, ctx._case, len(ctx.distinct), ev["wall_s"], coverage["observed"]))
    return 0
