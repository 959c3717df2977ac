"""Reference values of the MCM generic rate coefficients and photolysis rates (v3.2/v3.3.1 tables)."""
import math

M = 2.55e19
N2 = 0.79 * M
O2 = 0.2095 * M

# k = A * exp(B/T) * extra
ARRHENIUS = {
    "KRONO2": (2.70e-12, 360.0, 1.0),
    "KRO2NO": (2.70e-12, 360.0, 1.0),
    "KRO2HO2": (2.91e-13, 1300.0, 1.0),
    "KAPHO2": (5.20e-13, 980.0, 1.0),
    "KAPNO": (7.50e-12, 290.0, 1.0),
    "KRO2NO3": (2.30e-12, 0.0, 1.0),
    "KNO3AL": (1.40e-12, -1860.0, 1.0),
    "KDEC": (1.00e6, 0.0, 1.0),
    "KROPRIM": (2.50e-14, -300.0, 1.0),
    "KROSEC": (2.50e-14, -300.0, 1.0),
    "KALKOXY": (3.70e-14, -460.0, O2),
    "KALKPXY": (1.80e-14, -260.0, O2),
    "KCH3O2": (1.03e-13, 365.0, 1.0),
    "K298CH3O2": (3.50e-13, 0.0, 1.0),
    "K14ISOM1": (3.00e7, -5300.0, 1.0),
}

# name: (A0, n0, B0), (Ainf, ninf, Binf), Fc;  k0 = A0*M*(T/300)**n0*exp(B0/T)
TROE = {
    "KFPAN": ((3.28e-28, -6.87, 0.0), (1.125e-11, -1.105, 0.0), 0.30),
    "KBPAN": ((1.10e-5, 0.0, -10100.0), (1.90e17, 0.0, -14100.0), 0.30),
    "KMT01": ((1.00e-31, -1.6, 0.0), (5.00e-11, 0.3, 0.0), 0.85),
    "KMT02": ((1.30e-31, -1.5, 0.0), (2.30e-11, 0.24, 0.0), 0.60),
    "KMT03": ((3.60e-30, -4.1, 0.0), (1.90e-12, 0.2, 0.0), 0.35),
    "KMT04": ((1.30e-3, -3.5, -11000.0), (9.70e14, 0.1, -11080.0), 0.35),
    "KMT07": ((7.40e-31, -2.4, 0.0), (3.30e-11, -0.3, 0.0), 0.81),
    "KMT08": ((3.20e-30, -4.5, 0.0), (3.00e-11, 0.0, 0.0), 0.41),
    "KMT09": ((1.40e-31, -3.1, 0.0), (4.00e-12, 0.0, 0.0), 0.40),
    "KMT10": ((4.10e-5, 0.0, -10650.0), (6.00e15, 0.0, -11170.0), 0.40),
    "KMT12": ((2.50e-31, -2.6, 0.0), (2.00e-12, 0.0, 0.0), 0.53),
    "KMT13": ((2.50e-30, -5.5, 0.0), (1.80e-11, 0.0, 0.0), 0.36),
    "KMT14": ((9.00e-5, 0.0, -9690.0), (1.10e16, 0.0, -10560.0), 0.36),
    "KMT15": ((8.60e-29, -3.1, 0.0), (9.00e-12, -0.85, 0.0), 0.48),
    "KMT16": ((8.00e-27, -3.5, 0.0), (3.00e-11, -1.0, 0.0), 0.50),
    "KMT17": ((5.00e-30, -1.5, 0.0), (1.00e-12, 0.0, 0.0), None),
}

# index: (l, m, n);  J = l * cos(chi)**m * exp(-n / cos(chi))
PHOTO = {
    1: (6.073e-05, 1.743, 0.474), 2: (4.775e-04, 0.298, 0.080), 3: (1.041e-05, 0.723, 0.279),
    4: (1.165e-02, 0.244, 0.267), 5: (2.485e-02, 0.168, 0.108), 6: (1.747e-01, 0.155, 0.125),
    7: (2.644e-03, 0.261, 0.288), 8: (9.312e-07, 1.230, 0.307), 11: (4.642e-05, 0.762, 0.353),
    12: (6.853e-05, 0.477, 0.323), 13: (7.344e-06, 1.202, 0.417), 14: (2.879e-05, 1.067, 0.358),
    15: (2.792e-05, 0.805, 0.338), 16: (1.675e-05, 0.805, 0.338), 17: (7.914e-05, 0.764, 0.364),
    18: (1.482e-06, 0.396, 0.298), 19: (1.482e-05, 0.396, 0.298), 20: (7.600e-04, 0.396, 0.298),
    21: (7.992e-07, 1.578, 0.271), 22: (5.804e-06, 1.092, 0.377), 23: (2.4246e-06, 0.395, 0.296),
    24: (2.424e-06, 0.395, 0.296), 31: (6.845e-05, 0.130, 0.201), 32: (1.032e-05, 0.130, 0.201),
    33: (3.802e-05, 0.644, 0.312), 34: (1.537e-04, 0.170, 0.208), 35: (3.326e-04, 0.148, 0.215),
    41: (7.649e-06, 0.682, 0.279), 51: (1.588e-06, 1.154, 0.318), 52: (1.907e-06, 1.244, 0.335),
    53: (2.485e-06, 1.196, 0.328), 54: (4.095e-06, 1.111, 0.316), 55: (1.135e-05, 0.974, 0.309),
    56: (4.365e-05, 1.089, 0.323), 57: (3.363e-06, 1.296, 0.322), 61: (7.537e-04, 0.499, 0.266),
}

NAMES = sorted(ARRHENIUS) + sorted(TROE) + ["KMT05", "KMT06", "KMT11", "KMT18", "KBPPN"]
DAY, LATITUDE, LONGITUDE = 150.0, 51.51, 0.13


def _k(p, T, m=1.0):
    return p[0] * m * (T / 300.0) ** p[1] * math.exp(p[2] / T)


def generic(T, H2O):
    """All named coefficients at one temperature."""
    out = {n: a * math.exp(b / T) * c for n, (a, b, c) in ARRHENIUS.items()}
    for n, (p0, pi, fc) in TROE.items():
        k0, ki = _k(p0, T, M), _k(pi, T)
        if fc is None:
            fc = 0.17 * math.exp(-51.0 / T) + math.exp(-T / 204.0)
        nc = 0.75 - 1.27 * math.log10(fc)
        f = 10.0 ** (math.log10(fc) / (1.0 + (math.log10(k0 / ki) / nc) ** 2))
        out[n] = k0 * ki * f / (k0 + ki)
    k0 = 1.7e-3 * M * math.exp(-11280.0 / T)
    ki = 8.3e16 * math.exp(-13940.0 / T)
    out["KBPPN"] = k0 * ki * 0.36 / (k0 + ki)  # the MCM itself uses FCPPN here
    out["KMT05"] = 1.44e-13 * (1.0 + M / 4.2e19)
    out["KMT06"] = 1.0 + 1.40e-21 * math.exp(2200.0 / T) * H2O
    k1, k3, k4 = (2.40e-14 * math.exp(460.0 / T), 6.50e-34 * math.exp(1335.0 / T),
                  2.70e-17 * math.exp(2199.0 / T))
    out["KMT11"] = k1 + k3 * M / (1.0 + k3 * M / k4)
    out["KMT18"] = 9.5e-39 * O2 * math.exp(5270.0 / T) / (1.0 + 7.5e-29 * O2 * math.exp(5610.0 / T))
    return out


def cos_zenith(t, day=DAY, lat=LATITUDE, lon=LONGITUDE):
    th = 2.0 * math.pi * (day - 1.0) / 365.0
    dec = (0.006918 - 0.399912 * math.cos(th) + 0.070257 * math.sin(th) - 0.006758 * math.cos(2 * th)
           + 0.000907 * math.sin(2 * th) - 0.002697 * math.cos(3 * th) + 0.001480 * math.sin(3 * th))
    eqt = (0.000075 + 0.001868 * math.cos(th) - 0.032077 * math.sin(th) - 0.014615 * math.cos(2 * th)
           - 0.040849 * math.sin(2 * th))
    hour = math.fmod(t / 86400.0, 1.0) * 24.0
    lha = math.pi * (hour / 12.0 - (1.0 + lon / 180.0)) + eqt
    la = lat * math.pi / 180.0
    return math.cos(lha) * math.cos(la) * math.cos(dec) + math.sin(la) * math.sin(dec)


def photolysis(t):
    """J values by index at time of day t [s]; an index without a parameterisation is 0."""
    out = dict.fromkeys(range(0, 63), 0.0)
    c = cos_zenith(t)
    if c > 1e-30:
        for k, (l, m, n) in PHOTO.items():
            a = -n / c
            out[k] = l * c ** m * math.exp(a) if a > -700.0 else 0.0
    return out


_generic = {}


def environment(t, RO2, H2O, T):
    key = (T, H2O)
    if key not in _generic:
        if len(_generic) > 2000:
            _generic.clear()
        _generic[key] = generic(T, H2O)
    env = dict(_generic[key])
    env.update(M=M, N2=N2, O2=O2, RO2=RO2, H2O=H2O, TEMP=T, J=photolysis(t))
    return env
