"""Pure component properties land on the right compound, by the chosen methods, and decide who partitions."""
import numpy as np

from .. import chem, sut

VP = ["nannoolal", "myrdal_and_yalkowsky", "evaporation"]
BP = ["joback_and_reid", "stein_and_brown", "nannoolal"]
CRIT = ["nannoolal", "joback_and_reid"]
RHO = ["girolami", "schroeder", "le_bas", "tyn_and_calus"]


def properties_module():
    chem.install_umansysprop()
    return sut.load("Aerosol/Property_calculation.py")


def check(ctx):
    ctx.rule = "a case is one set of compounds and methods whose every property, inclusion and exclusion was compared"
    ctx.assumptions = ["UManSysProp is not installed: a stand-in gives each (method, molecule, arguments) its own number, so "
                       "a value shows which call made it; the methods themselves are not PyBox's"]
    ctx.require("compounds", 500)
    ctx.require("excluded_by_vapour_pressure", 50)
    ctx.require("without_structure", 50)
    ctx.require("at_the_cutoff", 8)
    mod = properties_module()
    import pybel
    for k in range(ctx.n(1500, 8000)):
        if ctx.left() < 0:
            break
        g = ctx.rng(k)
        n = int(g.integers(100, 400)) if k % 53 == 7 else int(g.integers(1, 25))
        names = [["S%d", "C%dOOH", "C%dO2", "APIN%d", "%d"][k % 5] % i for i in g.permutation(1000)[:n]]
        smi = chem.distinct_smiles(g, n)
        has = g.random(n) < (0.7 if k % 7 else 1.0)
        if k % 4 == 1 and n > 2:
            smi[1] = smi[0]
        objs = {s: pybel.readstring("smi", s) for s in smi}
        order = g.permutation(n)
        species_dict = {int(i): names[i] for i in (order if k % 2 else range(n))}
        s2a = {names[i]: int(i) for i in g.permutation(n)}
        table = {names[i]: smi[i] for i in range(n) if has[i]}
        T = float(g.uniform(*[(260, 315), (180, 260), (315, 400)][k % 3 if k % 2 else 0]))
        if k % 10 == 9:
            T = int(T)                        # a whole number as users write it
        vp, bp, crit, rho = (str(g.choice(x)) for x in (VP, BP, CRIT, RHO))
        ignore, cutoff = bool(k % 3), float(g.uniform(-12, -3) if k % 11 else g.uniform(-40, 10))
        if k % 5 == 2 and has.any():  # the cut-off is one compound's own value, and only those above it are excluded
            i = int(g.choice(np.flatnonzero(has)))
            cutoff = float(chem.expected(objs[smi[i]], T, vp, bp, crit, rho)[1])
            ctx.count("at_the_cutoff")
        w = {"names": names, "smiles": table, "methods": (vp, bp, crit, rho), "T": T, "ignore_vp": ignore, "cutoff": cutoff}
        pobj = {s: objs[s] for s in set(table.values())}
        out = sut.call("Pure_component1", mod.Pure_component1, n, species_dict, s2a, pobj, table, T, vp, bp, crit, rho, ignore, cutoff)
        inc, ign = [int(i) for i in out["include_index"]], [int(i) for i in out["ignore_index"]]
        ok = True
        for q in ("y_density_array", "y_mw", "sat_vp", "Delta_H", "Latent_heat_gas"):
            if len(out[q]) != n or not np.isfinite(np.asarray(out[q], float)).all():
                ctx.violation("length", "%s has %d entries for %d compounds" % (q, len(out[q]), n), **w)
                ok = False
        if not ok:
            continue
        want_inc = []
        for i in range(n):
            if has[i]:
                d, p = chem.expected(objs[smi[i]], T, vp, bp, crit, rho)
                mw = objs[smi[i]].molwt
                for what, got, want in (("density", out["y_density_array"][i], d), ("vapour pressure", out["sat_vp"][i], p),
                                        ("molar mass", out["y_mw"][i], mw)):
                    if not abs(got - want) <= 1e-9 * abs(want):
                        ctx.violation(what.replace(" ", "-"), "%s of %s (%s) is %r, the chosen methods give %r"
                                      % (what, names[i], smi[i], got, want), **w)
                n_ = chem.composition(objs[smi[i]])
                for q, e in (("o_c", "O"), ("h_c", "H")):
                    if q in out and not abs(out[q][i] - n_[e] / n_["C"]) <= 1e-12:
                        ctx.violation(q, "%s of %s is %r, expected %r" % (q, smi[i], out[q][i], n_[e] / n_["C"]), **w)
                if not ignore or not p > cutoff:
                    want_inc.append(i)
                else:
                    ctx.count("excluded_by_vapour_pressure")
            else:
                ctx.count("without_structure")
        if sorted(inc) != want_inc or sorted(ign) != [i for i in range(n) if i not in want_inc]:
            ctx.violation("selection", "partitioning compounds %s and ignored ones %s, expected %s to partition"
                          % (sorted(inc), sorted(ign), want_inc), **w)
        flags = np.asarray(out["ignore_index_fortran"], float)
        if flags.shape != (n,) or [i for i in range(n) if flags[i] == 0] != want_inc or not set(flags) <= {0.0, 1.0}:
            ctx.violation("flags", "flags %s for partitioning compounds %s" % (flags, want_inc), **w)
        ctx.count("compounds", n)
        # kinetic properties
        mw = np.append(np.asarray(out["y_mw"], float), 18.0)
        R = float(g.choice([8.3144598, 8.314]))
        for arg in (mw.tolist(), mw):
            o2 = sut.call("Pure_component2", mod.Pure_component2, len(mw), arg, R, T)
            D = 1.9 * mw ** (-2.0 / 3.0)
            v = np.sqrt(8.0 * R * T / (np.pi * mw * 1e-3))
            ctx.expect_close("diffusivity", "gas phase diffusivity", o2["DStar_org"], D, 1e-9, **w)
            ctx.expect_close("speed", "mean thermal speed", o2["mean_them_vel"], v, 1e-9, **w)
            ctx.expect_close("path", "mean free path", o2["gamma_gas"], 3.0 * D / (v * 100.0) * 1e-2, 1e-9, **w)
            a = np.asarray(o2["alpha_d_org"], float)
            if a.shape != mw.shape or not ((a > 0) & (a <= 1)).all() or np.ptp(a) > 1e-12:
                ctx.violation("accommodation", "accommodation coefficients %s for %d compounds" % (a, len(mw)), **w)
        ctx.case(k, {"compounds": n, "methods": (vp, bp, crit, rho), "partitioning": len(want_inc)})
