"""Workloads shared by the checks: random and shipped mechanisms, states, and common oracles."""
import os

import numpy as np

from . import expr, gen, mcm, mech as mm

ALL = ("rates", "reactants", "dydt", "jacobian")


def random_case(ctx, tag, k, style=True, least=3, most=60, **kw):
    """(mechanism, text) number k; sizes and styles vary with k."""
    g = ctx.rng(tag, k)
    nr = int(g.integers(least, most + 1))
    ns = int(g.integers(3, max(4, min(nr, 60))))
    m = mm.random_mech(g, nr, ns, **kw)
    return g, m, mm.write(m, mm.Style.random(g) if style else None)


def shipped_text(path):
    with open(path, encoding="utf8") as f:
        return f.read()


BIG = "MCM_mixed_test"  # the largest: parsed and evaluated, but too long for gfortran and dense Jacobians


def models(ctx, tag, count, shipped=True, style=True, big=True, long=False, **kw):
    """Yields (key, generator, mechanism, Model) for random mechanisms and the shipped ones."""
    for k in range(count):
        if ctx.left() < 0:
            ctx.count("cut_short")
            return
        if long and k == 4:  # four-digit reaction numbers over few species: long lines of generated code
            g, m, text = random_case(ctx, tag, k, False, least=1150, most=1200, **kw)
            if kw.get("wide"):
                few = m.species[:3]
                m = mm.Mech([mm.Reaction(r.reactants, [(few[j % 3], 0.1), (few[j % 3], 0.2)], r.rate) if j % 2 else r
                             for j, r in enumerate(m.reactions)])
            text = mm.write(m, mm.Style.random(g) if style else None)
        else:
            g, m, text = random_case(ctx, tag, k, style, **kw)
        yield "%s%d" % (tag, k), g, m, gen.Model(ctx, text, "%s%d" % (tag, k))
    if shipped:
        for name, path in mm.shipped():
            if name == BIG and not big:
                continue
            g = ctx.rng(tag, name)
            yield name, g, mm.load_shipped(path), gen.Model(ctx, shipped_text(path), tag + name, name=name)


def band(bound, env, delta=0.05):
    """How far the rates may move when the solar clock is off by delta seconds (single precision pi)."""
    t = env[0]
    return np.abs(bound.rates(t + delta, *env[1:]) - bound.rates(max(t - delta, 0.0), *env[1:]))


def describe(m, limit=30):
    return m.as_text()[:limit]


def sizes(ctx, m):
    ctx.count("equations", len(m))
    ctx.count("species", len(m.species))
    ctx.count("repeated_reactant", sum(len(r.lhs) < len([1 for s, _ in r.reactants if s != "hv"]) for r in m.reactions))
    ctx.count("catalyst", sum(bool(set(r.lhs) & set(r.rhs)) for r in m.reactions))
    ctx.count("no_product", sum(not r.rhs for r in m.reactions))
    ctx.count("nonunit_coefficient", sum(any(c != 1 for _, c in r.reactants + r.products) for r in m.reactions))
