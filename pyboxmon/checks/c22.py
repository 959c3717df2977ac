"""Generation depends on the mechanism alone: not on what was generated before, nor on order, repetition or hashing."""
import json
import os

import numpy as np

from .. import agree, cases, gen, mech as mm, sut
from .c12 import with_cores

PARTS = ("rates", "reactants", "dydt", "jacobian")

HASHED = r"""
import json, os, sys
import numpy as np
from pyboxmon import core, gen, mech as mm
class C: scratch = os.getcwd()
text = open('in.txt', encoding='utf8').read()
model = gen.Model(C, text, 'h')
f = model.numba()
at = json.load(open('at.json'))
names = sorted(model.index, key=model.index.get)
out = {'names': np.array(names), 'ro2': np.array([names[int(i)] for i in model.ro2_indices()], dtype=str)}
for k, (env, conc) in enumerate(at):
    y = np.array([conc[s] for s in names])
    out['r%d' % k] = f.rates(*env)
    out['p%d' % k] = f.reactants(y)
    out['d%d' % k] = f.dydt(f.rates(*env) * f.reactants(y))
    out['j%d' % k] = f.jacobian(f.rates(*env), y)
np.savez('out.npz', **out)
"""


class Saved:
    """The results of a subprocess, seen as a generated model over the species order of that process."""

    def __init__(self, z):
        self.z, self.k = z, 0

    def at(self, k):
        self.k = k
        return self

    def rates(self, *env):
        return self.z["r%d" % self.k]

    def reactants(self, y):
        return self.z["p%d" % self.k]

    def jacobian(self, k, y):
        return self.z["j%d" % self.k]


def stale(ctx, k):
    """B generated where A was, with A's files in place, must be B."""
    g = ctx.rng("stale", k)
    big = mm.random_mech(g, *mm.extent(g, k in (2, 7), (15, 50), (8, 30)))
    small = mm.random_mech(g, int(g.integers(2, 14)), int(g.integers(3, 8)), ro2=bool(k % 3))
    first, second = (big, small) if k % 2 else (small, big)
    fortran = k % 4 == 3
    tag = "st%d" % k
    for which, m in (("first", first), ("second", second)):
        model = gen.Model(ctx, mm.write(m, mm.Style.random(g)), tag)
        b = model.bound(m)
        if b is None:
            return
        sparse = None
        if fortran:
            with_cores(4, lambda: model.write_fortran(PARTS, openmp=which == "first"))
            f = gen.Fortran(model, PARTS)
        else:
            f = model.numba()
            sparse = model.sparse("loss_gain"), model.sparse("reactants_indices_sparse")
        at = agree.states(g, b)
        agree.whole(ctx, (tag, which), m, b, f, at, fortran, "regenerated" if which == "second" else "generated")
        agree.ro2(ctx, (tag, which), model, b)
        if sparse is not None:
            S, R = sparse
            if S.shape != (b.n, b.m):
                ctx.violation("stale-matrix", "the saved matrix has shape %s for %d species and %d reactions" % (S.shape, b.n, b.m))
            else:
                r = 10.0 ** g.uniform(0, 6, b.m)
                if not (np.abs(S.dot(r) - b.dydt(r)) <= 1e-9 * b.gross(r) + 1e-250).all():
                    ctx.violation("stale-matrix", "the saved loss and gain matrix is not that of this mechanism", which=which, reactions=m.as_text()[:10])
            ctx.count("matrices")
        ctx.case((tag, which), {"kind": "regenerated in place", "first": len(first), "second": len(second), "fortran": fortran})


def order(ctx, k):
    """The writers in any order, repeated, and interleaved with another mechanism."""
    g = ctx.rng("order", k)
    ms = [mm.random_mech(g, int(g.integers(3, 30)), int(g.integers(3, 15))) for _ in range(2)]
    models = [gen.Model(ctx, mm.write(m, mm.Style.random(g)), "or%d_%d" % (k, i)) for i, m in enumerate(ms)]
    bs = [model.bound(m) for model, m in zip(models, ms)]
    if None in bs:
        return
    jobs = [(i, p, back) for i in (0, 1) for p in PARTS + ("ro2",) for back in ("numba", "fortran")]
    jobs += [jobs[int(j)] for j in g.integers(0, len(jobs), 8)]
    seq = [jobs[i] for i in g.permutation(len(jobs))]
    for i, p, back in seq:
        if p == "ro2":
            models[i].ro2_indices()
        elif back == "numba":
            models[i].write_numba((p,))
        else:
            models[i].write_fortran((p,))
    for i, m in enumerate(ms):
        at = agree.states(g, bs[i])
        key = ("order", k, i)
        agree.whole(ctx, key, m, bs[i], gen.Numba(models[i], PARTS), at, False, "any-order")
        if k % 4 == 0:
            agree.whole(ctx, key, m, bs[i], gen.Fortran(models[i], PARTS), at, True, "any-order-fortran")
        agree.ro2(ctx, key, models[i], bs[i])
        ctx.case(key, {"kind": "order", "sequence": [list(s) for s in seq[:8]]})
    ctx.count("writer_calls", len(seq))


def driver_order(ctx, k):
    """Conversions as the drivers chain them: numba after Fortran on one parse, shared dictionaries and all."""
    g = ctx.rng("driver", k)
    m = mm.random_mech(g, int(g.integers(3, 30)), int(g.integers(3, 15)))
    model = gen.Model(ctx, mm.write(m), "dr%d" % k)
    b = model.bound(m)
    if b is None:
        return
    P, C, o = sut.parse_module(), sut.conv_module(), model.out
    # the Fortran drivers convert the same dictionary twice before writing
    rd = sut.call("convert_rate_mcm_fortran", C.convert_rate_mcm_fortran, o["rate_dict"])
    rd = sut.call("convert_rate_mcm_fortran", C.convert_rate_mcm_fortran, o["rate_dict"] if k % 2 else rd)
    with sut.cwd(model.dir):
        sut.call("write_rate_file_fortran", P.write_rate_file_fortran, model.name, rd, False)
    model.write_fortran(("reactants", "dydt", "jacobian"))
    agree.whole(ctx, ("driver", k), m, b, gen.Fortran(model, PARTS), agree.states(g, b), True, "driver-order")
    ctx.case(("driver", k), {"kind": "driver order"})


def hashing(ctx, k):
    """Another process, another hash seed."""
    g = ctx.rng("hash", k)
    m = mm.random_mech(g, int(g.integers(5, 40)), int(g.integers(4, 20)))
    d = os.path.join(ctx.scratch, "hash%d" % k)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "in.txt"), "w", encoding="utf8") as f:
        f.write(mm.write(m, mm.Style.random(g)))
    at = []
    for j in range(2):
        at.append((gen.environment(g, day=j == 0), dict(zip(m.species, gen.concentrations(g, len(m.species)).tolist()))))
    with open(os.path.join(d, "at.json"), "w") as f:
        json.dump(at, f)
    seeds = [str(1 + int(g.integers(4000000000))) for _ in range(ctx.n(2, 4))]
    numbered = None
    for seed in seeds:
        p = gen.run_python(HASHED, d, env={"PYTHONHASHSEED": seed})
        if p.returncode:
            ctx.violation("process", "generation fails in another process (hash seed %s): %s" % (seed, p.stderr[-600:]), reactions=m.as_text())
            return
        z = dict(np.load(os.path.join(d, "out.npz")))
        names = [str(s) for s in z["names"]]
        if sorted(names) != sorted(m.species):
            ctx.violation("hash-species", "species %s with hash seed %s" % (names[:10], seed))
            return
        if numbered not in (None, names):
            ctx.violation("hash-numbering", "the species are numbered %s with hash seed %s, and %s with another" % (names[:10], seed, numbered[:10]),
                          reactions=m.as_text())
        numbered = names
        b = m.bind({s: i for i, s in enumerate(names)})
        want = mm.ro2_reference() & set(names)
        if {str(s) for s in z["ro2"]} != want:
            ctx.violation("hash-ro2", "RO2 is %s with hash seed %s, expected %s" % (z["ro2"][:8], seed, sorted(want)[:8]))
        for j, (env, conc) in enumerate(at):
            y = np.array([conc[s] for s in names])
            s = Saved(z).at(j)
            s.dydt = lambda r, j=j: z["d%d" % j] if np.allclose(r, b.rates(*env) * b.products(y), rtol=1e-9) else None
            agree.whole(ctx, ("hash", k, seed), m, b, s, [(env, y)], False, "hash-seed")
        ctx.count("processes")
        ctx.case(("hash", k, seed), {"kind": "hash seed", "seed": seed})


def check(ctx):
    ctx.rule = ("a case is one mechanism generated in place of another one, in another order of calls, or in another process, "
                "and then compared with its reference in rates, products, tendencies, Jacobian and RO2")
    ctx.require("states_judged", 40)
    ctx.require("processes", 4)
    ctx.require("writer_calls", 100)
    for k in range(ctx.n(24, 160)):
        if ctx.left() < 0:
            ctx.count("cut_short")
            break
        stale(ctx, k)
        order(ctx, k)
        if k % 3 == 0:
            driver_order(ctx, k)
            hashing(ctx, k)
