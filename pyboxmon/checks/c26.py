"""Fixed yield runs: the species file is read as written, and the run only moves matter between gas and particles."""
import os

import numpy as np

from .. import aero, chem, part, sims, sut
from ..core import Inconclusive


def species_file(ctx, k):
    g = ctx.rng("file", k)
    n = int(g.integers(100, 500)) if k % 41 == 9 else int(g.integers(1, 40))
    smi = chem.distinct_smiles(g, n)
    conc = g.random(n)
    conc[g.random(n) < 0.1] = 0.0           # listed, though nothing of it is formed
    conc[g.random(n) < 0.1] *= 1.0e3
    fmt = ["%.5f", "%g", "%.3E", "%.12f", "%+.4e", "%d"][k % 6]
    text = [fmt % c for c in conc]
    if k % 6 == 0:
        text = [t.lstrip("0") if t[1:2] == "." else t for t in text]      # .5
    lines = [["", "", "", " "][int(g.integers(4))] + s + [" ", "\t", "   "][int(g.integers(3))] + t + ["", "  "][int(g.integers(2))] for s, t in zip(smi, text)]
    if k % 3 == 0:
        lines.append("%s %g" % (smi[0], 0.77))       # written twice: the first entry counts
        lines.insert(int(g.integers(1, len(lines))), "%s %s" % (smi[0], text[0]))
    d = os.path.join(ctx.scratch, "y%d" % k)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "yield.txt"), "w", newline="") as f:
        f.write(("\r\n" if k % 5 == 4 else "\n").join(lines) + ("\n" if k % 2 else ""))
    return d, smi, [float(t) for t in text]


def parsing(ctx):
    P = sut.parse_module()
    for k in range(ctx.n(500, 2000)):
        d, smi, conc = species_file(ctx, k)
        with sut.cwd(d):
            o = sut.call("extract_species", P.extract_species, "yield.txt")
        w = {"smiles": smi, "values": conc}
        if int(o["species_number"]) != len(smi):
            ctx.violation("count", "%d species read from a file with %d" % (o["species_number"], len(smi)), **w)
            continue
        idx = {s: int(i) for s, i in o["species_dict2array"].items()}
        if set(idx) != set(smi) or sorted(idx.values()) != list(range(len(smi))) or \
                {int(i): s for i, s in o["species_dict"].items()} != {i: s for s, i in idx.items()}:
            ctx.violation("species", "the species table is not the list of the file, once each", got=idx, **w)
            continue
        if len(o["concentration_array"]) != len(smi) or len(o["smiles_array"]) != len(smi):
            ctx.violation("arrays", "%d yields and %d SMILES in the arrays for %d species"
                          % (len(o["concentration_array"]), len(o["smiles_array"]), len(smi)), **w)
            continue
        for s, c in zip(smi, conc):
            i = idx[s]
            obj = o["Pybel_object_dict"].get(s)
            import pybel
            if o["SMILES_dict"].get(s) != s or obj is None or \
                    obj.write("can").split()[0] != pybel.readstring("smi", s).write("can").split()[0]:
                ctx.violation("molecule", "species %s has the wrong structure" % s, **w)
                break
            if o["concentration_dict"].get(obj) != c or o["concentration_array"][i] != c or o["smiles_array"][i] != s:
                ctx.violation("yield", "the yield of %s is read as %r and %r, the file says %r"
                              % (s, o["concentration_dict"].get(obj), o["concentration_array"][i], c), **w)
                break
        ctx.count("yields", len(smi))
        ctx.case(("file", k), {"species": len(smi)})


def runs(ctx):
    for k in range(ctx.n(10, 60)):
        if ctx.left() < 0:
            ctx.count("cut_short")
            break
        g = ctx.rng("run", k)
        n = int(g.integers(40, 120)) if k % 10 == 7 else int(g.integers(1 + (k % 2 == 0), 8))
        s = aero.Setup(g, n, 2 if n > 40 else [3, 1, 5, 2, 8, 14][k % 6], range(n) if k % 2 else g.permutation(n)[: int(g.integers(1, max(2, n)))])
        if k % 4 == 1:
            s.volatile(g)
        ctx.count("excluded_species", n + 1 - s.nc)
        d = os.path.join(ctx.scratch, "f%d" % k)
        os.makedirs(d, exist_ok=True)
        gas0 = list(g.uniform(0, 20, n) * sims.CFACTOR * (1e-3 if k % 4 == 1 else 1.0)) + [s.water_gas]
        total, batch = [(300.0, 100.0), (250.0, 100.0), (30.0, 30.0), (1.0, 0.3)][k % 4]
        w = {"setup": s.describe(), "gas": gas0, "total": total, "batch": batch}
        y0 = np.append(gas0, s.cond.reshape(-1))
        try:
            run = aero.Run(ctx, d, "yield", s, gas0=gas0, start=43200.0, total=total, batch=batch, label="fixed yield", witness=w)
        except Inconclusive:
            ctx.count("unfinished_runs")
            continue
        from .c19 import judge
        judge(ctx, k, run, s, None, y0, 43200.0, 0.0, total, batch, w)
        # nothing is made or lost
        y = np.asarray(run.saved("_y_output"), float)
        amount = y[:, s.include] + y[:, s.ns:].reshape(len(y), s.bins, s.nc).sum(1)
        first = y0[s.include] + y0[s.ns:].reshape(s.bins, s.nc).sum(0)
        ctx.expect_close("conserved", "amount of each species", amount, np.tile(first, (len(y), 1)), 1e-3, **w)
        ctx.count("amounts", amount.size)
        import pandas
        for what, want in (("_y_output", y), ("_t_output", np.asarray(run.saved("_t_output"), float)),
                           ("_SOA_output", np.asarray(run.saved("_SOA_output"), float)),
                           ("_size_output", np.asarray(run.saved("_size_output"), float))):
            got = sut.call("reading " + what, pandas.read_csv, run.path + what + ".csv", index_col=0).values
            ctx.expect_close("csv", "table %s.csv" % what, got.reshape(-1), want.reshape(-1), 1e-12, 1e-290, **w)
            ctx.count("csv_values", want.size)
        ctx.case(("run", k), w)


def check(ctx):
    ctx.rule = "a case is one species file read back, or one run monitored online with its saved results compared"
    ctx.assumptions = ["the Assimulo stand-in of C17", "a SMILES given twice keeps its first value"]
    ctx.require("yields", 300)
    ctx.require("rhs_checked", 300)
    ctx.require("amounts", 20)
    ctx.require("excluded_species", 1)
    ctx.require("csv_values", 100)
    ctx.require("mass_falls", 1)
    ctx.require("mass_rises", 1)
    parsing(ctx)
    runs(ctx)
