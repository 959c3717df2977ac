"""Reactant products follow mass action in every generated form."""
import numpy as np

from .. import cases, gen


def index_products(idx, st, y):
    out = np.ones(len(idx))
    for e in range(len(idx)):
        for i, c in zip(np.atleast_1d(idx[e]), np.atleast_1d(st[e])):
            out[e] *= y[int(i)] ** float(c) if float(c) else 1.0
    return out


def check(ctx):
    ctx.rule = "a case is one (mechanism, concentration vector) with the product of every reaction compared in every form"
    ctx.assumptions = ["concentrations are finite and not negative; the logarithmic sparse form is judged where all are positive"]
    ctx.require("products", 20000)
    ctx.require("zero_products", 300)
    for i, (key, g, m, model) in enumerate(cases.models(ctx, "m", ctx.n(160, 900), fractional_reactants=True, rich=True, long=True)):
        b = model.bound(m)
        if b is None:
            continue
        forms = [("numba", model.numba(("reactants",)), 1e-12)]
        data = [("numba-index", model.npy("_reactant_indices"), model.npy("_reactants_stoich_indices"))]
        sparse = model.sparse("reactants_indices_sparse")
        if key != cases.BIG and (i % 2 == 0 or key.startswith("MCM")):
            user = i % 10 == 0
            forms.append(("fortran", model.fortran(("reactants",), openmp=i % 4 == 2,
                                                   flags=gen.USER_FLAGS if user else gen.FAST_FLAGS), 1e-6))
            data.append(("fortran-index", model.npy("_reactant_indices"), model.npy("_reactants_stoich_indices")))
        for j in range(ctx.n(3, 8)):
            y = gen.concentrations(g, b.n)
            if j == 1:
                y = np.maximum(y, 1e-3)
            want = b.products(y)
            w = {"case": key, "reactions": cases.describe(m)}
            for name, f, tol in forms:
                got = f.reactants(y)
                if ctx.expect_close("product-" + name, name + " reactant product", got, want, tol + (b.single(y) if name == "fortran" else 0.0), **w):
                    if ((want == 0) != (got == 0)).any():
                        ctx.violation("absent-" + name, name + ": product is zero exactly when a reactant is absent", **w)
            for name, idx, st in data:
                if len(idx) != len(m) or len(st) != len(m):
                    ctx.violation("index-" + name, "%s holds %d reactions of %d" % (name, len(idx), len(m)), **w)
                    continue
                ctx.expect_close("index-" + name, name + " product from the saved indices", index_products(idx, st, y), want, 1e-9, **w)
            if sparse.shape != (len(m), b.n):
                ctx.violation("sparse-shape", "sparse reactant matrix is %s for %d reactions of %d species"
                              % (sparse.shape, len(m), b.n), **w)
            elif (y > 0).all():
                ctx.expect_close("sparse", "product from the saved sparse matrix", np.exp(sparse @ np.log(y)), want, 1e-8, **w)
                ctx.count("sparse_products", len(m))
            ctx.count("products", len(want) * len(forms))
            ctx.count("zero_products", int((want == 0).sum()))
            ctx.case((key, j), {"case": key, "y": y[:5], "products": want[:5]})
        cases.sizes(ctx, m)
