"""Partitioning fluxes, sizes, water activity and organic mass follow the published growth law."""
import numpy as np

from .. import gen, part


def compare(ctx, label, c, got, tol=2e-6):
    soa, aw, size, dy, gross = part.reference(c)
    w = {"case": c.describe(), "backend": label}
    ok = ctx.expect_close("soa", "organic mass", got[0], soa, tol, 1e-290, **w)
    ok &= ctx.expect_close("aw", "water activity", got[1], aw, tol, **w)
    ok &= ctx.expect_close("size", "particle size", got[2], size, tol, **w)
    bad = np.flatnonzero(~(np.abs(got[3] - dy) <= 20 * tol * gross))
    if bad.size:
        i = int(bad[0])
        where = "gas species %d" % i if i < c.num_species else "bin %d, condensed species %d" % divmod(i - c.num_species, c.nc)
        ctx.violation("flux", "%s: flux %r, the growth law gives %r" % (where, float(got[3][i]), float(dy[i])), **w)
        ok = False
    ctx.count("fluxes", dy.size)
    ctx.count("bins", c.bins)
    ctx.count("condensing", int((dy[c.num_species:] > 0).sum()))
    ctx.count("evaporating", int((dy[c.num_species:] < 0).sum()))
    return ok


def check(ctx):
    ctx.rule = "a case is one (sizes, state) whose fluxes, sizes, water activities and organic mass were compared with the reference"
    ctx.assumptions = ["Fuchs-Sutugin correction, Raoult and Kelvin terms as documented in PyBox; water is the last condensed species",
                       "N, core and masses positive; condensed amounts not negative"]
    ctx.require("fluxes", 5000)
    ctx.require("evaporating", 200)
    ctx.require("condensing", 200)
    for k in range(ctx.n(110, 700)):
        if ctx.left() < 0:
            break
        g = ctx.rng(k)
        c = part.random_case(g)
        P = part.Partition(gen_dir(ctx, k), c.num_species, c.include, c.bins, gen.USER_FLAGS if k % 4 == 0 else gen.FAST_FLAGS)
        for j in range(ctx.n(4, 10)):
            if j:
                c = part.random_case(g, c.num_species, c.bins, c.nc)
                c.include, c.args["ignore_index"] = P.include, c.args["ignore_index"]
                c.args["C_g_i_t"] = c.args["y"][: c.num_species][c.include].copy()
            compare(ctx, "fortran", c, P.run(c))
            ctx.case((k, j), c.describe())
    real_f2py(ctx)


def gen_dir(ctx, k):
    import os
    d = os.path.join(ctx.scratch, "part%s" % k)
    os.makedirs(d, exist_ok=True)
    return d


def real_f2py(ctx):
    """The tool chain of the driver: f2py builds the module, Python calls it by position."""
    import os
    import pickle
    g = ctx.rng("f2py")
    d = gen_dir(ctx, "f2py")
    cs = [part.random_case(g, 9, 5, 4)]
    P = part.Partition(d, 9, cs[0].include, 5)
    for _ in range(3):
        c = part.random_case(g, 9, 5, 4)
        c.include = P.include
        c.args["C_g_i_t"] = c.args["y"][:9][c.include].copy()
        cs.append(c)
    gen.f2py_build(d, "partition_f2py", "Partitioning.f90")
    with open(os.path.join(d, "in.pickle"), "wb") as f:
        pickle.dump([[c.args[n] for n in part.ORDER] for c in cs], f)
    p = gen.run_python("import pickle\nfrom partition_f2py import dydt_partition\n"
                       "o=[dydt_partition(*a) for a in pickle.load(open('in.pickle','rb'))]\n"
                       "pickle.dump(o,open('out.pickle','wb'))", d)
    if p.returncode:
        ctx.violation("f2py-call", "the compiled partitioning module fails: " + p.stderr[-600:])
        return
    with open(os.path.join(d, "out.pickle"), "rb") as f:
        for c, got in zip(cs, pickle.load(f)):
            compare(ctx, "f2py", c, got)
            ctx.count("f2py_states")
            ctx.case(("f2py", id(c)))
