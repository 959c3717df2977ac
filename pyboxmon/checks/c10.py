"""RO2: the saved indices are exactly the peroxy radicals of the mechanism, once each."""
import numpy as np

from .. import cases, gen, mech as mm

# peroxy radicals of MCM_mixed_test that PyBox's list lacks or that the mechanism uses otherwise
ALLOWED = {"C626O2", "C818O2", "CH3C2H2O2", "CH3SOO", "HODMSO2", "IPGLOO", "IPGLOOB", "IPRCHOO", "IPRCHOOA"}


def check(ctx):
    ctx.rule = "a case is one mechanism whose saved RO2 indices were compared with the peroxy radicals among its species"
    ctx.assumptions = ["a peroxy radical is a species the shipped MCM mechanisms consume at a rate proportional to RO2; "
                       "nine names of MCM_mixed_test are accepted either way (listed in DESIGN.md)"]
    ref = mm.ro2_reference()
    ctx.count("reference_names", len(ref))
    every = set()
    for _, path in mm.shipped():
        every |= set(mm.load_shipped(path).species)

    def judge(key, model, m, want, optional):
        idx = model.ro2_indices()
        w = {"case": key}
        idx = np.asarray(idx)
        if idx.ndim != 1 or not np.issubdtype(idx.dtype, np.integer):
            ctx.violation("type", "RO2 indices have type %s and %d dimensions" % (idx.dtype, idx.ndim), **w)
            return
        if idx.size and (idx.min() < 0 or idx.max() >= model.n):
            ctx.violation("range", "RO2 index out of range of %d species" % model.n, **w)
            return
        name = {p: s for s, p in model.index.items()}
        got = [name[int(i)] for i in idx]
        if len(set(got)) != len(got):
            ctx.violation("twice", "counted twice: %s" % sorted({s for s in got if got.count(s) > 1}), **w)
        miss, extra = want - set(got) - optional, set(got) - want - optional
        if miss:
            ctx.violation("missing", "peroxy radicals left out of RO2: %s" % sorted(miss)[:10], **w)
        if extra:
            ctx.violation("extra", "counted as RO2 but no peroxy radical: %s" % sorted(extra)[:10], **w)
        y = np.arange(1.0, model.n + 1)
        float(np.sum(y[idx]))
        ctx.count("ro2_species", len(got))
        ctx.count("empty" if not got else "nonempty")
        ctx.case(key, {"case": key, "ro2": got[:6]})

    for name, path in mm.shipped():
        m = mm.load_shipped(path)
        model = gen.Model(ctx, cases.shipped_text(path), "s" + name, name=name)
        if model.bound(m) is None:
            continue
        judge(name, model, m, ref & set(m.species), ALLOWED)
    pool, other = sorted(ref - ALLOWED), sorted(every - ref - ALLOWED - set(mm.INERT))
    for k in range(ctx.n(500, 3000)):
        g = ctx.rng(k)
        nr = [0, 1, 2, 5, 20, 60, len(pool)][k % 7]
        ro2 = list(g.permutation(pool)[:nr])
        rest = list(g.permutation(other)[: int(g.integers(3, 40))])
        # names that only contain the name of a peroxy radical
        near = [s + x for s, x in zip(g.permutation(pool)[:3], ("H", "X", "NO2"))] + ["X" + s for s in g.permutation(pool)[:2]]
        rest += [s for s in near if s not in ref and s not in every]
        sp = [str(s) for s in g.permutation(ro2 + rest)]
        R = []
        for i, s in enumerate(sp):
            if g.random() < 0.5:
                R.append(mm.Reaction([(s, 1.0)], [(sp[int(g.integers(len(sp)))], 1.0)], "1.0D-3"))
            else:
                R.append(mm.Reaction([(sp[int(g.integers(len(sp)))], 1.0)], [(s, 1.0)], "1.0D-3"))
        m = mm.Mech(R)
        model = gen.Model(ctx, mm.write(m, mm.Style.random(g)), "k%d" % k)
        if model.bound(m) is not None:
            judge("synthetic%d" % k, model, m, set(map(str, ro2)) & set(m.species), set())
    ctx.require("empty", 5)
    ctx.require("ro2_species", 1000)
