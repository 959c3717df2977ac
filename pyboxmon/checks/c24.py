"""Every mechanism species gets its own SMILES and molecule, and only those that have one."""
import os

import numpy as np

from .. import chem, gen, mech as mm, sut

OXIDANTS = ("OH", "HO2", "O3")


def canonical(s):
    import pybel
    return pybel.readstring("smi", s).write("can").split()[0]


def check(ctx):
    ctx.rule = "a case is one (mechanism, species file) whose mapping of every species was compared with the file"
    ctx.assumptions = ["a species file has at most one entry for a name", "radicals OH, HO2, O3 are never mapped (PyBox's choice)"]
    ctx.require("mapped", 150)
    ctx.require("unmapped", 60)
    P = sut.parse_module()
    for k in range(ctx.n(900, 4000)):
        if ctx.left() < 0:
            break
        g = ctx.rng(k)
        m = mm.random_mech(g, *mm.extent(g, k % 67 == 20, (3, 30), (3, 25)))
        model = gen.Model(ctx, mm.write(m), "x%d" % k)
        if model.bound(m) is None:
            continue
        species = list(m.species)
        pool = chem.distinct_smiles(g, len(species) + 10)
        table, entries = {}, []
        for i, s in enumerate(species):
            u = g.random()
            if u < 0.15:
                continue                      # not in the file
            smi = None if u < 0.3 else pool[i if u < 0.85 else 0]   # no SMILES, its own, or one shared by isomers
            entries.append((s, smi))
            if smi is not None and s not in OXIDANTS:
                table[s] = smi
        # others in the file, with names close to those of the mechanism
        near = [s + "X" for s in species[:4]] + [s.lower() for s in species[:3]] + [s[:-1] for s in species[:3] if len(s) > 2]
        for i, s in enumerate(near):
            if s not in species:
                entries.append((s, pool[len(species) + i % 10]))
        entries = [entries[i] for i in g.permutation(len(entries))]
        path = os.path.join(model.dir, "species.xml")
        with open(path, "w", encoding="utf8") as f:
            f.write(chem.xml(entries, g))
        before = {q: repr(v) for q, v in model.out.items()}
        with sut.cwd(model.dir):
            out = sut.call("extract_smiles_species", P.extract_smiles_species, dict(model.out), "species.xml")
        w = {"species": species, "file": entries}
        got = dict(out["SMILES_dict"])
        if got != table:
            bad = sorted(s for s in set(got) | set(table) if got.get(s) != table.get(s))
            ctx.violation("smiles", "species %s is mapped to %r, its entry says %r"
                          % (bad[0], got.get(bad[0]), table.get(bad[0])), wrong=bad[:8], **w)
            continue
        objs = out["Pybel_object_dict"]
        if set(objs) != set(table.values()):
            ctx.violation("molecules", "molecules exist for %s, needed for %s" % (sorted(objs), sorted(set(table.values()))), **w)
            continue
        for smi, o in objs.items():
            if o.write("can").split()[0] != canonical(smi):
                ctx.violation("molecule", "the molecule of %s is %s" % (smi, o.write("can").split()[0]), **w)
        for q, v in before.items():
            if repr(out.get(q)) != v:
                ctx.violation("changed", "mapping the SMILES changed the parsed %s" % q, **w)
        ctx.count("mapped", len(table))
        ctx.count("unmapped", len(species) - len(table))
        ctx.case(k, {"species": len(species), "entries": len(entries), "mapped": len(table)})
