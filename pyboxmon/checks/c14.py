"""Partitioning conserves every species, leaves the others alone and vanishes at equilibrium."""
import numpy as np

from .. import gen, part
from .c13 import gen_dir


def check(ctx):
    ctx.rule = ("a case is one state on which the balance of every species, the untouched species, the sign of each flux "
                "and the zero of the flux at equilibrium were checked")
    ctx.assumptions = ["the same domain as C13"]
    ctx.require("balances", 800)
    ctx.require("untouched", 500)
    ctx.require("equilibria", 100)
    for k in range(ctx.n(120, 700)):
        if ctx.left() < 0:
            break
        g = ctx.rng(k)
        c = part.random_case(g)
        P = part.Partition(gen_dir(ctx, k), c.num_species, c.include, c.bins, gen.USER_FLAGS if k % 4 == 0 else gen.FAST_FLAGS)
        ns, nc, w = c.num_species, c.nc, {"case": c.describe()}
        for j in range(ctx.n(5, 12)):
            if j:
                c2 = part.random_case(g, ns, c.bins, nc)
                c2.include = c.include
                c2.args["C_g_i_t"] = c2.args["y"][:ns][c.include].copy()
                c = c2
            soa, aw, size, dy = P.run(c)
            cond = dy[ns:].reshape(c.bins, nc)
            gross = part.reference(c)[4]
            for q, i in enumerate(c.include):
                total = dy[i] + cond[:, q].sum()
                if not abs(total) <= 1e-12 * (gross[i] + np.abs(cond[:, q]).sum()):
                    ctx.violation("balance", "species %d: gas %r and particles %r do not cancel" % (i, dy[i], cond[:, q].sum()), **w)
                    break
                ctx.count("balances")
            rest = np.setdiff1d(np.arange(ns), c.include)
            if (dy[rest] != 0).any():
                ctx.violation("untouched", "species %s does not partition yet changes" % rest[dy[rest] != 0][:5], **w)
            ctx.count("untouched", rest.size)
            if not (np.isfinite(size).all() and (size > 0).all() and (aw >= 0).all() and (aw <= 1).all() and soa >= 0):
                ctx.violation("range", "sizes, water activities or mass out of range", soa=soa, aw=aw, size=size, **w)
            # a species absent from a bin cannot leave it
            x = c.args["y"][ns:].reshape(c.bins, nc)
            gone = (x == 0)
            if (cond[gone] < 0).any():
                ctx.violation("absent", "a species absent from a bin evaporates from it", **w)
            ctx.count("absent", int(gone.sum()))
            # equilibrium by the measured response: the flux is affine in the gas concentration
            lo = P.run(c, C_g_i_t=np.zeros(nc))[3][ns:].reshape(c.bins, nc)
            hi = P.run(c, C_g_i_t=c.args["C_g_i_t"] * 2)[3][ns:].reshape(c.bins, nc)
            if not (np.abs(hi - 2 * cond + lo) <= 1e-9 * (np.abs(hi) + np.abs(cond) + np.abs(lo))).all():
                ctx.violation("affine", "the flux is not linear in the gas concentration", **w)
            if (lo > 0).any() or (hi < cond).any():
                ctx.violation("direction", "a higher gas concentration condenses less, or an empty gas phase condenses", **w)
            # zero flux when the gas sits at the equilibrium concentration of the bin (Kelvin, Raoult and Psat)
            a = c.args
            for b in range(min(c.bins, 3)):
                mass = np.append(x[b] / a["NA"] * a["mw_array"], a["core_mass_array"][b])
                rho = mass.sum() / (mass / np.append(a["density_input"], a["core_density_array"][b])).sum()
                kelvin = np.exp(4.0 * a["mw_array"] * 1e-3 * a["sigma"] / (a["R_gas"] * a["Model_temp"] * 2.0 * size[b] * rho))
                eq = kelvin * x[b] / (x[b].sum() + a["ycore"][b] * a["core_diss"]) * a["Psat"] * 101325.0 * a["NA"] / (8.3144598e6 * a["Model_temp"])
                at = P.run(c, C_g_i_t=eq)[3][ns:].reshape(c.bins, nc)[b]
                if not (np.abs(at) <= 1e-6 * np.abs(lo[b])).all():
                    q = int(np.argmax(np.abs(at) - 1e-6 * np.abs(lo[b])))
                    ctx.violation("equilibrium", "bin %d species %d: flux %r at the equilibrium concentration (%r without gas)"
                                  % (b, q, float(at[q]), float(lo[b, q])), **w)
                ctx.count("equilibria", nc)
            # the bins are independent: permuting them permutes the result
            if c.bins > 1 and j % 2 == 0:
                p = g.permutation(c.bins)
                y2 = a["y"].copy()
                y2[ns:] = x[p].reshape(-1)
                o = P.run(c, y=y2, **{n: a[n][p] for n in ("ycore", "core_mass_array", "core_density_array", "N_perbin")})
                for name, got, want in (("aw", o[1], aw[p]), ("size", o[2], size[p]), ("flux", o[3][ns:].reshape(c.bins, nc), cond[p])):
                    ctx.expect_close("permute-" + name, "permuted bins, " + name, got, want, 1e-12, **w)
                ctx.expect_close("permute-soa", "permuted bins, mass", o[0], soa, 1e-12, **w)
                ctx.count("permutations")
            # a bin does not see what is in another one
            if c.bins > 1:
                b = int(g.integers(c.bins))
                y2 = a["y"].copy()
                other = [q for q in range(c.bins) if q != b]
                y2[ns:].reshape(c.bins, nc)[other] *= 3.0
                o = P.run(c, y=y2)
                if abs(o[2][b] - size[b]) > 1e-12 * size[b] or not np.allclose(o[3][ns:].reshape(c.bins, nc)[b], cond[b], rtol=0,
                                                                                   atol=1e-12 * np.abs(gross[ns:]).reshape(c.bins, nc)[b].max()):
                    ctx.violation("isolation", "what is in other bins changes the fluxes of bin %d" % b, **w)
                ctx.count("isolations")
            ctx.case((k, j), c.describe())
