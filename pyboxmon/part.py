"""Gas-to-particle partitioning: the generated Fortran made callable, a reference, and random states."""
import ctypes
import os

import numpy as np

from . import gen, sut
from .core import SutError

NA, R_GAS, SIGMA, KB = 6.0221409e+23, 8.3144598, 72.0e-3, 1.380648e-23
CONST = dict(GRAV=9.8, Updraft=0.0, sigma=SIGMA, NA=NA, kb=KB, Rv=461.0, R_gas=R_GAS, cp=1005.0, Ra=287.0,
             Lv_water_vapour=2.5e3)
ORDER = ("y ycore core_diss core_mass_array density_input core_density_array ignore_index mw_array Psat DStar_org "
         "alpha_d_org C_g_i_t N_perbin gamma_gas Latent_heat GRAV Updraft sigma NA kb Rv R_gas Model_temp cp Ra "
         "Lv_water_vapour").split()


class Case:
    """Sizes and arguments of one partitioning call."""

    def __init__(self, num_species, include, bins, args):
        self.num_species, self.include, self.bins, self.args = num_species, list(include), bins, args
        self.nc = len(self.include)
        self.total = num_species + self.nc * bins

    def describe(self):
        a = self.args
        return {"num_species": self.num_species, "include_index": self.include, "bins": self.bins,
                "T": a["Model_temp"], "core_diss": a["core_diss"]}


def random_case(g, num_species=None, bins=None, nc=None, equilibrium=False):
    """num_species counts the water vapour, which is last in gas and in every bin, as in ODE_solver."""
    ns = num_species or int(g.integers(3, 30) if g.random() < 0.97 else g.integers(120, 320))
    bins = bins or int(g.choice([1, 2, 3, 4, 5, 7, 8, 16, 17, 21, 32, 50, 101]))
    org = np.sort(g.permutation(ns - 1)[: (nc - 1 if nc else int(g.integers(1, ns)))])
    include = [int(i) for i in org] + [ns - 1]
    k = len(include)
    ignore = np.ones(ns, dtype=np.int64)
    ignore[include] = 0
    T = float(g.uniform(243, 322))
    mw = np.append(g.uniform(30, 400, k - 1), 18.0)
    dens = np.append(g.uniform(800, 1900, k - 1), 1000.0)
    psat = np.append(10 ** g.uniform(-16, -5, k - 1), 10 ** g.uniform(-2.5, -1.2))
    N = 10 ** g.uniform(-1, 3.5, bins)
    radius = np.sort(10 ** (g.uniform(-8, -5.7, bins) if g.random() < 0.85 else g.uniform(-9.1, -5, bins)))
    core_rho = g.uniform(1000, 2500, bins)
    core_mw = float(g.uniform(50, 200))
    ycore = 4.0 / 3.0 * np.pi * radius ** 3 * core_rho / (core_mw * 1e-3) * NA * N
    diss = float(g.choice([1.0, 2.0, 3.0, 2.5]))
    y = np.zeros(ns + k * bins)
    y[:ns] = 10 ** g.uniform(2, 12, ns)
    y[ns - 1] = 10 ** g.uniform(16.5, 17.8)
    load = 10 ** g.uniform(-6, 1.0, (bins, k))
    load[g.random((bins, k)) < 0.15] = 0.0
    cond = load * ycore[:, None]
    cond[:, k - 1] = ycore * diss * g.uniform(0.05, 5, bins)
    u = g.random()
    if u < 0.1:
        cond[g.random(bins) < 0.3, k - 1] = 0.0         # dry particles
    elif u < 0.2:
        cond[g.random(bins) < 0.3] = 0.0                # nothing but the core
    if u > 0.8:
        y[: ns - 1][g.random(ns - 1) < 0.3] = 0.0
    y[ns:] = cond.reshape(-1)
    alpha = g.choice([0.1, 1.0, 0.5, 0.03], k)
    mwd = 1.9 * mw ** (-2.0 / 3.0)
    vel = np.sqrt(8.0 * R_GAS * T / (np.pi * mw * 1e-3))
    gamma = 3.0 * mwd / (vel * 100.0) * 1e-2
    a = dict(CONST)
    if g.random() < 0.4:        # the solution's surface tension need not be that of water
        a["sigma"] = float(g.uniform(0.02, 0.09))
    a.update(y=y, ycore=ycore, core_diss=diss, core_mass_array=ycore / NA * core_mw, density_input=dens,
             core_density_array=core_rho, ignore_index=ignore, mw_array=mw, Psat=psat, DStar_org=mwd,
             alpha_d_org=alpha, C_g_i_t=y[:ns][include].copy(), N_perbin=N, gamma_gas=gamma,
             Latent_heat=g.uniform(1e2, 3e3, k), Model_temp=T)
    return Case(ns, include, bins, a)


def reference(c):
    """SOA [ug/m3], aw, size [m], dy_dt and the gross size of the fluxes."""
    a, ns, k = c.args, c.num_species, c.nc
    dy, gross = np.zeros(c.total), np.zeros(c.total)
    aw, size = np.zeros(c.bins), np.zeros(c.bins)
    soa = 0.0
    pi = 3.1415927
    for b in range(c.bins):
        x = a["y"][ns + b * k: ns + (b + 1) * k]
        total = x.sum() + a["ycore"][b] * a["core_diss"]
        frac = x / total
        mass = x / a["NA"] * a["mw_array"]
        allm = mass.sum() + a["core_mass_array"][b]
        vol = (mass / a["density_input"]).sum() + a["core_mass_array"][b] / a["core_density_array"][b]
        rho = allm / vol
        soa += mass[:-1].sum()
        aw[b] = x[-1] / total
        size[b] = (3.0 * allm * 1e3 / (a["N_perbin"][b] * 1e6) / (4.0 * pi * rho)) ** (1.0 / 3.0)
        kn = a["gamma_gas"] / size[b]
        fuchs = 1.0 / (1.0 + ((1.33 * kn + 0.71) / (kn + 1.0) + 4.0 * (1.0 - a["alpha_d_org"]) / (3.0 * a["alpha_d_org"])) * kn)
        kelvin = np.exp(4.0 * a["mw_array"] * 1e-3 * a["sigma"] / (a["R_gas"] * a["Model_temp"] * size[b] * 2.0 * rho))
        cstar = kelvin * frac * a["Psat"] * 101325.0 * a["NA"] / (8.3144598e6 * a["Model_temp"])
        k1 = 4.0 * pi * size[b] * 1e2 * a["N_perbin"][b] * a["DStar_org"] * fuchs
        flux = k1 * (a["C_g_i_t"] - cstar)
        absf = k1 * (a["C_g_i_t"] + cstar)
        dy[ns + b * k: ns + (b + 1) * k] = flux
        gross[ns + b * k: ns + (b + 1) * k] = absf
        for j, i in enumerate(c.include):
            dy[i] -= flux[j]
            gross[i] += absf[j]
    return soa * 1e12, aw, size, dy, gross


class Partition:
    """PyBox's generated dydt_partition for given sizes."""

    def __init__(self, directory, num_species, include, bins, flags=gen.FAST_FLAGS):
        self.ns, self.include, self.bins, self.nc = num_species, list(include), bins, len(include)
        self.total = num_species + self.nc * bins
        self.dir = directory
        with sut.cwd(directory):
            sut.call("write_partitioning_section_fortran_ignore",
                     sut.parse_module().write_partitioning_section_fortran_ignore,
                     self.total, bins, num_species, self.nc, self.include)
        self.src = os.path.join(directory, "Partitioning.f90")
        self.load(flags)

    def load(self, flags):
        self.so = gen.compile_fortran(self.src, flags)
        self.lib = gen.Library(self.so, "dydt_partition")
        return self

    def shapes(self):
        k, b = self.nc, self.bins
        s = dict(y=self.total, ycore=b, core_mass_array=b, density_input=k, core_density_array=b, ignore_index=self.ns,
                 mw_array=k, Psat=k, DStar_org=k, alpha_d_org=k, C_g_i_t=k, N_perbin=b, gamma_gas=k, Latent_heat=k)
        return s

    def __call__(self, *args, fill=np.nan):
        if len(args) != len(ORDER):
            raise TypeError("dydt_partition takes %d arguments, %d given" % (len(ORDER), len(args)))
        shapes, keep, cargs = self.shapes(), [], []
        for name, a in zip(ORDER, args):
            if name in shapes:
                v = np.ascontiguousarray(a, np.int64 if name == "ignore_index" else np.float64)
                if v.size != shapes[name]:
                    raise ValueError("failed in converting argument `%s' of dydt_partition: %d values, %d expected"
                                     % (name, v.size, shapes[name]))
                cargs.append(v.ctypes.data_as(ctypes.c_void_p))
            else:
                v = ctypes.c_double(float(a))
                cargs.append(ctypes.byref(v))
            keep.append(v)
        soa = ctypes.c_double(fill)
        aw, size, dy = np.full(self.bins, fill), np.full(self.bins, fill), np.full(self.total, fill)
        self.lib.fn(*cargs, ctypes.byref(soa), *(v.ctypes.data_as(ctypes.c_void_p) for v in (aw, size, dy)))
        return soa.value, aw, size, dy

    def run(self, case, fill=np.nan, **change):
        a = dict(case.args)
        a.update(change)
        return self(*[a[n] for n in ORDER], fill=fill)
