"""Parsing: the extracted dictionaries hold the file's reactions, no more and no less."""
import numpy as np

from .. import cases, gen, mech as mm, sut


def table(d, sense):
    return {(str(s), int(e)): float(c) for s, row in d.items() for e, c in row.items() if c is not None}


def compare(ctx, key, m, model):
    o = model.out
    w = {"case": key, "text": model.text[:6000]}
    if model.m != len(m):
        ctx.violation("count", "%d equations extracted from a file of %d" % (model.m, len(m)), **w)
        return
    if model.bound(m) is None:
        return
    for name, side in (("loss_dict", "lhs"), ("gain_dict", "rhs")):
        got = table(o[name], name)
        want = {(s, e): c for e, r in enumerate(m.reactions) for s, c in getattr(r, side).items()}
        for k in sorted(set(got) | set(want), key=repr):
            a, b = got.get(k), want.get(k)
            if a is None or b is None or abs(a - b) > 1e-12 * abs(b):
                ctx.violation(name, "%s: species %s in reaction %d: stoichiometry %s, the file says %s (%r)"
                              % (name, k[0], k[1] + 1, a, b, m.reactions[k[1]] if k[1] < len(m) else None), **w)
                break
        ctx.count("stoichiometries", len(want))
    for e, r in enumerate(m.reactions):
        text = "".join(str(o["rate_dict"].get(e)).split())
        if text != "".join(r.rate.split()):
            ctx.violation("rate-text", "reaction %d: rate %r, the file says %r" % (e + 1, text, r.rate), **w)
            break
        slots, st = o["rate_dict_reactants"][e], o["stoich_dict"][e]
        tot = {}
        for j, s in slots.items():
            tot[s] = tot.get(s, 0.0) + float(st[j])
        if set(slots) != set(st) or set(tot) != set(r.lhs) or \
                any(abs(tot[s] - c) > 1e-12 * abs(c) for s, c in r.lhs.items()):
            ctx.violation("reactant-slots", "reaction %d: reactants %s, the file says %s" % (e + 1, tot, r.lhs), **w)
            break
        ctx.count("rate_texts")
    cases.sizes(ctx, m)
    ctx.case((key, len(m)), {"case": key, "reactions": cases.describe(m, 4)})


def check(ctx):
    ctx.rule = ("a case is one mechanism text whose every reaction, stoichiometry and rate was compared with the "
                "reference reader; texts vary layout, coefficient spelling, repeats, names and line ends")
    ctx.assumptions = ["labels are {n} or {n.}, with white space beside the number or leading zeros but none after the dot; a coefficient is an unsigned decimal; every reaction has a reactant besides hv"]
    ctx.require("stoichiometries", 2000)
    ctx.require("repeated_reactant", 20)
    for key, g, m, model in cases.models(ctx, "p", ctx.n(900, 5000), rich=True, wide=True, fractional_reactants=True):
        if not key[1:].isdigit() or len(model.text) < 100000:
            r = mm.read(model.text)
            assert all(set(x.lhs) == set(z.lhs) and all(abs(x.lhs[q] - z.lhs[q]) < 1e-9 * z.lhs[q] for q in z.lhs)
                       for x, z in zip(r.reactions, m.reactions)), "reference reader and writer disagree"
        compare(ctx, key, m, model)
        if key in ("MCM_BCARY", "MCM_APINENE"):
            # the same shipped mechanism laid out differently
            for j in range(ctx.n(2, 8)):
                gg = ctx.rng("re", key, j)
                t = mm.write(m, mm.Style.random(gg))
                compare(ctx, "%s-style%d" % (key, j), m, gen.Model(ctx, t, "re%s%d" % (key, j)))
