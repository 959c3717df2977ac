"""Random molecules, species files and a stand-in for UManSysProp whose every value names its inputs."""
import sys
import types
import zlib

import numpy as np

GROUPS = ["C", "C(=O)", "C(O)", "C(C)", "C(OO)", "C(C)(C)", "C(ON(=O)=O)", "C=C", "C#C", "OC", "C(=O)O", "C1CC1", "C/C=C/C", "C(F)"]
ENDS = ["C", "C=O", "C(=O)O", "OO", "O", "C(=O)OO", "C(C)C", "C#C", "[O]", "C(=O)C", "Cl", "S"]
HEADS = ["C"] * 9 + ["OC", "O=C", "[O]C", "N#CC", "[O-][N+](=O)OC", "ClC", "BrC", "c1ccccc1C", "C1CC1C", "O1CC1C", "[H]C", "FC", "OOC"]


def smiles(g):
    """A molecule with at least one carbon."""
    return str(g.choice(HEADS)) + "".join(str(g.choice(GROUPS)) for _ in range(int(g.integers(0, 6)))) + str(g.choice(ENDS))


def distinct_smiles(g, n):
    out = {}
    while len(out) < n:
        out[smiles(g)] = 1
    return list(out)


def value(*key):
    """A number in [0,1) that only these inputs give."""
    return zlib.crc32(repr(plain(key)).encode()) / 2.0 ** 32


def plain(x):
    """The same number is the same, of whatever type."""
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    return float(x) if isinstance(x, (int, float, np.number)) else str(x) if isinstance(x, str) else x


def name_of(c):
    return getattr(c, "pyboxmon_smiles", None) or c.write("can").split()[0]


def boiling(method, c):
    return 300.0 + 400.0 * value("bp", method, name_of(c))


def vapour(method, c, T, b=None):
    return -14.0 + 13.0 * value("vp", method, name_of(c), T, b)


def critical(method, c, b):
    return ("critical", method, name_of(c), b)


def density(method, c, T=None, p=None):
    return 0.8 + value("rho", method, name_of(c), T, p)


def composition(c):
    import re
    n = name_of(c)
    return {"C": 1 + n.upper().count("C"), "H": 2 + len(n), "O": n.upper().count("O"), "N": n.upper().count("N")}


def umansysprop():
    """The modules of UManSysProp that PyBox imports."""
    mods = {n: types.ModuleType("umansysprop." + n) for n in
            "boiling_points vapour_pressures critical_properties liquid_densities partition_models groups "
            "activity_coefficient_models_dev forms".split()}
    for m in ("joback_and_reid", "stein_and_brown", "nannoolal"):
        setattr(mods["boiling_points"], m, lambda c, m=m: boiling(m, c))
    for m in ("nannoolal", "myrdal_and_yalkowsky"):
        setattr(mods["vapour_pressures"], m, lambda c, t, b, m=m: vapour(m, c, t, b))
    for m in ("evaporation", "evaporation2", "simpol"):
        setattr(mods["vapour_pressures"], m, lambda c, t, m=m: vapour(m, c, t))
    for m in ("nannoolal", "joback_and_reid"):
        setattr(mods["critical_properties"], m, lambda c, b, m=m: critical(m, c, b))
    mods["liquid_densities"].girolami = lambda c: density("girolami", c)
    for m in ("schroeder", "le_bas", "tyn_and_calus"):
        setattr(mods["liquid_densities"], m, lambda c, t, p, m=m: density(m, c, t, p))
    mods["groups"].composition = composition
    mods["forms"].CoreAbundanceField = object
    return mods


def install_umansysprop():
    top = types.ModuleType("umansysprop")
    top.__path__ = []
    sys.modules["umansysprop"] = top
    for n, m in umansysprop().items():
        setattr(top, n, m)
        sys.modules["umansysprop." + n] = m


def expected(c, T, vp, bp, crit, rho):
    """density [kg/m3], log10 vapour pressure of one compound for a choice of methods."""
    d = density(rho, c) if rho == "girolami" else density(rho, c, T, critical(crit, c, boiling("nannoolal", c)))
    p = vapour(vp, c, T) if vp == "evaporation" else vapour(vp, c, T, boiling(bp, c))
    return d * 1e3, p


def xml(entries, g=None):
    """entries: (name, smiles or None)."""
    from xml.sax.saxutils import escape
    lines = ['<?xml version="1.0" encoding="utf-8"?>', "<mechanism><species_defs>"]
    for i, (n, s) in enumerate(entries):
        body = "<smiles>%s</smiles>" % escape(s) if s is not None else ""
        if s is None and g is not None:
            body = ("", "", "<smiles/>", "<smiles></smiles>")[int(g.integers(4))]
        extra = "<inchi>InChI=1S/%d</inchi>" % i
        if g is not None and g.random() < 0.5:
            body, extra = extra, body
        gap = "\n    " if g is not None and g.random() < 0.5 else ""
        attributes = ['species_number="%d"' % i, 'species_name="%s"' % n]
        if g is not None and g.random() < 0.3:
            attributes = [a.replace('"', "'") for a in attributes[::-1]]
            lines.append("<!-- %s: <smiles>CCCCCCC</smiles> -->" % n)
        lines.append("<species %s>%s%s%s%s</species>" % (" ".join(attributes), gap, body, gap, extra))
    return "\n".join(lines + ["</species_defs></mechanism>", ""])
