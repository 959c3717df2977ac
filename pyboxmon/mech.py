"""Independent model of a KPP mechanism: reading, writing, generating, and its mass-action meaning."""
import os
import re

import numpy as np

from . import expr, mcm
from .core import REPO

INERT = ("AIR", "H2O", "O2", "hv")
TERM = re.compile(r"^(\d+\.\d+|\.\d+|\d+)?([A-Za-z]\w*)$")


class Reaction:
    """reactants/products: lists of (species, coefficient) as written; rate: text."""

    def __init__(self, reactants, products, rate):
        self.reactants = list(reactants)
        self.products = list(products)
        self.rate = rate
        self._node = None

    @staticmethod
    def _sum(terms):
        out = {}
        for s, c in terms:
            if s != "hv":
                out[s] = out.get(s, 0.0) + c
        return out

    @property
    def lhs(self):
        return self._sum(self.reactants)

    @property
    def rhs(self):
        return self._sum(self.products)

    @property
    def node(self):
        if self._node is None:
            self._node = expr.parse(self.rate)
        return self._node

    def __repr__(self):
        f = lambda ts: " + ".join(("%g " % c if c != 1 else "") + s for s, c in ts)
        return "%s = %s : %s" % (f(self.reactants), f(self.products), self.rate)


class Mech:
    def __init__(self, reactions):
        self.reactions = list(reactions)
        seen = {}
        for r in self.reactions:
            for s, _ in r.reactants + r.products:
                if s != "hv":
                    seen.setdefault(s, len(seen))
        self.species = list(seen)

    def __len__(self):
        return len(self.reactions)

    def as_text(self):
        return [repr(r) for r in self.reactions]

    # ---- meaning; index maps species name to array position ---------------
    def bind(self, index):
        return Bound(self, index)


class Bound:
    """The mechanism over one ordering of the species."""

    def __init__(self, mech, index):
        self.mech = mech
        self.index = index
        self.n = len(mech.species)
        self.m = len(mech)
        self.lhs = [[(index[s], c) for s, c in r.lhs.items()] for r in mech.reactions]
        rows, cols, vals = [], [], []
        for k, r in enumerate(mech.reactions):
            net = {}
            for s, c in r.lhs.items():
                net[s] = net.get(s, 0.0) - c
            for s, c in r.rhs.items():
                net[s] = net.get(s, 0.0) + c
            for s, c in net.items():
                if s not in INERT:
                    rows.append(index[s])
                    cols.append(k)
                    vals.append(c)
        from scipy.sparse import csr_matrix
        self.S = csr_matrix((vals, (rows, cols)), shape=(self.n, self.m))
        # gross turnover, the scale against which rounding is judged
        r2, c2, v2 = [], [], []
        for k, r in enumerate(mech.reactions):
            for side in (r.lhs, r.rhs):
                for s, c in side.items():
                    if s not in INERT:
                        r2.append(index[s])
                        c2.append(k)
                        v2.append(abs(c))
        self.G = csr_matrix((v2, (r2, c2)), shape=(self.n, self.m))

    def products(self, y):
        if not hasattr(self, "_pi"):  # padded index and exponent tables; position n holds a one
            w = max([len(t) for t in self.lhs] + [1])
            self._pi = np.full((self.m, w), self.n)
            self._pc = np.ones((self.m, w))
            for k, terms in enumerate(self.lhs):
                for j, (i, c) in enumerate(terms):
                    self._pi[k, j], self._pc[k, j] = i, c
        v = np.append(np.asarray(y, float), 1.0)
        return np.prod(v[self._pi] ** self._pc, axis=1)

    def single(self, y):
        """How far rounding the orders of a reaction to single precision, as in 2.3 of Fortran, can move a product."""
        ln = np.abs(np.log(np.where(np.asarray(y) > 0, y, 1.0)))
        return 6e-8 * np.array([sum((1.0 + c) * ln[i] for i, c in t if c != int(c)) for t in self.lhs])

    def rates(self, t, RO2, H2O, T):
        env = mcm.environment(t, RO2, H2O, T)
        self._calls = getattr(self, "_calls", 0) + 1
        if self._calls < 4:
            return np.array([r.node.ev(env) for r in self.mech.reactions])
        if self._calls == 4:
            self._fast = expr.compiled([r.node for r in self.mech.reactions])
        return np.array(self._fast(env))

    def dydt(self, r):
        return self.S @ r

    def gross(self, r):
        return self.G @ np.abs(r)

    def jacobian(self, k, y, gross=False):
        """d(S (k*prod(y)))/dy at fixed rate coefficients."""
        from scipy.sparse import csr_matrix
        rows, cols, vals = [], [], []
        for e, terms in enumerate(self.lhs):
            for i, c in terms:
                v = k[e] * c * (y[i] ** (c - 1.0) if c != 1.0 else 1.0)
                for j, d in terms:
                    if j != i:
                        v *= y[j] ** d
                rows.append(e)
                cols.append(i)
                vals.append(abs(v) if gross else v)
        D = csr_matrix((vals, (rows, cols)), shape=(self.m, self.n))
        return ((self.G if gross else self.S) @ D).toarray()

    def ro2(self, y, names):
        return float(sum(y[self.index[s]] for s in names if s in self.index))

    def rhs(self, t, y, H2O, T, ro2_names):
        return self.dydt(self.rates(t, self.ro2(y, ro2_names), H2O, T) * self.products(y))


# ---- reading ------------------------------------------------------------------
def read(text):
    """Reference reader: character scan, one reaction from each label to the next semicolon."""
    out, i = [], 0
    while True:
        i = text.find("{", i)
        if i < 0:
            break
        j = text.index("}", i)
        k = text.index(";", j)
        body = text[j + 1:k]
        i = k + 1
        eq, _, rate = body.partition(":")
        left, _, right = eq.partition("=")
        sides = []
        for side in (left, right):
            terms = []
            for t in side.split("+"):
                t = "".join(t.split())
                if not t:
                    continue
                m = TERM.match(t)
                if not m:
                    raise ValueError("bad term %r" % t)
                terms.append((m.group(2), float(m.group(1)) if m.group(1) else 1.0))
            sides.append(terms)
        out.append(Reaction(sides[0], sides[1], "".join(rate.split())))
    return Mech(out)


def shipped():
    """Names and paths of the mechanisms in the repository."""
    d = os.path.join(REPO, "mechanism_files")
    return sorted((f[:-len(".eqn.txt")], os.path.join(d, f)) for f in os.listdir(d) if f.endswith(".eqn.txt"))


_read = {}


def load_shipped(path):
    if path not in _read:
        with open(path, encoding="utf8") as f:
            _read[path] = read(f.read())
    return _read[path]


def ro2_reference():
    """Peroxy radicals by use: what the shipped mechanisms consume in reactions whose rate holds RO2."""
    out = set()
    for _, path in shipped():
        for r in load_shipped(path).reactions:
            if "RO2" in expr.names(r.node):
                out |= set(r.lhs)
    return out


# ---- generating ---------------------------------------------------------------
NAMES = ("NO NO2 NO3 N2O5 O O3 O1D OH HO2 H2O2 CO HNO3 HONO HO2NO2 HCHO CH4 CH3OH CH3OOH CH3NO3 CH3O "
         "C2H4 C3H6 C2H5O C2H5OH SO2 SO3 HSO3 PAN PPN NA SA APINENE BCARY C10 C1 C C107OH C107OOH C96O "
         "A A1 A10 A100 D1 D2 D3O E1 E2E5 E10 J4 K12 M1 N M X1 X10 X100 O10 O100 H H2 H20 HVX HV hv2 "
         "NC102OH NAPINAOOH C720OH C5H8 C59 C58NO3PAN PINAL PINONIC DMS MSA CL CL2 CLO NO2X O3X "
         "C23O3CHO CO235C6CHO HCOOH HOCH2CHO GLYOX MGLYOX ACETOL B2 B22 B222 B_2 X_1 D0X D10 E0X")
NAMES = NAMES.split()
RO2_POOL = ("CH3O2 C2H5O2 CH3CO3 C107O2 C109O2 APINAO2 APINBO2 APINCO2 C96O2 C97O2 C98O2 PINONICO2x "
            "HOCH2CH2O2 NAPINAO2 NAPINBO2 HCOCH2O2 C2H5CO3 BCAO2 BCBO2 BCCO2").split()
SPECIAL = ("O2", "H2O", "AIR")


def _lit(g, lo=-20, hi=-10, forms="DE"):
    m = g.choice(["%.2f", "%.1f", "%d", "%.3f"]) % (1.0 + 8.9 * g.random())
    if "%" in m:
        m = "1.0"
    e = int(g.integers(lo, hi + 1))
    f = forms[int(g.integers(len(forms)))]
    if e >= 0 and f == "D" and g.random() < 0.5:
        return "%s%s%s%d" % (m, f, "+" if g.random() < 0.5 else "", e) if e > 0 else m + "D0"
    return "%s%s%s%s" % (m, f, "+" if e >= 0 else "-", ("%02d" if g.random() < 0.7 else "%d") % abs(e))


def _exp(g):
    s = "-" if g.random() < 0.6 else ""
    b = int(g.integers(10, 2600))
    c = str(b) if g.random() < 0.7 else "%.1f" % (b + 0.5)
    return "EXP(%s%s/TEMP)" % (s, c)


def _upscaled(g, lo, hi):
    """A large number, its exponent without a sign, beside a small one."""
    n = int(g.integers(0, 13))
    return "%s%s%s*%s" % (g.choice(["2.5", "1", "7.25"]), "DE"[int(g.integers(2))], ("%d" if g.random() < 0.7 else "%02d") % n,
                          _lit(g, lo - n, hi - n))


JS = sorted(mcm.PHOTO)


def random_rate(g, hostile=True, photo=True, ro2=True, order=2):
    """A rate expression of the shapes that occur in MCM files, and harder nestings of the same parts."""
    big = order == 1
    lo, hi = ((-6, 2) if big else (-18, -11))
    frac = lambda: g.choice(["0.2", "0.125", "0.65", "0.30", ".5", "1.5", "0.0875"])
    nm = lambda: str(g.choice(["KRO2NO", "KRO2HO2", "KAPHO2", "KAPNO", "KRO2NO3", "KNO3AL", "KFPAN", "KMT01",
                               "KMT02", "KMT03", "KMT05", "KMT07", "KMT08", "KMT09", "KMT11", "KMT12", "KMT13",
                               "KMT15", "KMT16", "KMT17", "KCH3O2", "K298CH3O2"])) if not big else \
        str(g.choice(["KDEC", "KBPAN", "KMT04", "KMT10", "KMT14", "KBPPN", "K14ISOM1"]))
    jj = lambda: "J(%d)" % int(g.choice(JS))
    shapes = [
        lambda: _lit(g, lo, hi),
        lambda: nm(),
        lambda: nm() + "*" + frac(),
        lambda: frac() + "*" + nm(),
        lambda: _lit(g, lo, hi) + "*" + _exp(g),
        lambda: _lit(g, lo, hi) + "*" + frac(),
        lambda: _lit(g, lo, hi) + "*" + _exp(g) + "*" + frac(),
        lambda: _lit(g, lo, hi) + "*(TEMP/300)**" + str(g.choice(["-2.6", "1.5", "2", "-0.9", "0.7"]))
        + ("*" + _exp(g) if g.random() < 0.5 else ""),
        lambda: _lit(g, lo - 4, hi - 6) + "*TEMP**2*" + _exp(g),
        lambda: _lit(g, lo - 3, hi - 3) + "*" + _exp(g) + "*EXP(1.0D8/TEMP**3)",
        lambda: _lit(g, lo, hi) + "*" + _exp(g) + "*(1-1/(1+%d*EXP(-%d/TEMP)))" % (int(g.integers(10, 500)), int(g.integers(100, 1800))),
        lambda: _lit(g, lo, hi) + "*" + _exp(g) + "+" + _lit(g, lo, hi),
        lambda: "%s*(%s*%s*%s)**0.5" % (frac(), "KCH3O2" if not big else "KDEC",
                                      _lit(g, -13, -11) if not big else _lit(g, 0, 3), _exp(g)),
        lambda: _lit(g, lo - 18, hi - 18) + "*" + str(g.choice(["O2", "N2", "M"])),
        lambda: _lit(g, lo - 17, hi - 17) + "*H2O",
    ]
    if photo:
        shapes += [lambda: jj(), lambda: jj() + "*" + frac(), lambda: jj() + "+" + jj(),
                   lambda: jj() + "*" + frac() + "+" + jj(), lambda: frac() + "*" + jj(),
                   lambda: nm() + "+" + jj()]
    if ro2:
        lo2 = _lit(g, lo, hi) if not big else _lit(g, -13, -11)
        shapes += [lambda: lo2 + "*RO2", lambda: lo2 + "*" + frac() + "*RO2", lambda: lo2 + "*RO2*" + frac(),
                   lambda: "2*(K298CH3O2*8.0D-12)**0.5*RO2*" + frac(),
                   lambda: "2*KCH3O2*RO2*%s*(1-%s*EXP(-416/TEMP))" % (frac(), g.choice(["7.18", "0.5"]))]
    if hostile:
        shapes += [
            lambda: "%s*dsqrt(TEMP/298.0)" % _lit(g, lo, hi),
            lambda: "%s*LOG10(TEMP)" % _lit(g, lo, hi),
            lambda: "%s*dlog(TEMP)" % _lit(g, lo, hi),
            lambda: "%s*LOG(TEMP)*%s" % (_lit(g, lo, hi), frac()),
            lambda: "%s*dabs(TEMP-%d.5)" % (_lit(g, lo, hi), int(g.integers(310, 360))),
            lambda: "((%s)*(1.0+%s*%s))/(2.0+TEMP/300.0)" % (_lit(g, lo, hi), frac(), _exp(g)),
            lambda: "%s/(1.0+%s)" % (_lit(g, lo, hi), _exp(g)),
            lambda: "(%s+%s)*(%s-%s/TEMP)" % (_lit(g, lo, hi), nm(), "3.0D0", "1.2D+01"),
            lambda: "%s*EXP(LOG(TEMP/300.0)*%s)" % (_lit(g, lo, hi), frac()),
            lambda: "%s*10.0**(%s*LOG10(TEMP/300.0))" % (_lit(g, lo, hi), frac()),
            lambda: "%s*EXP(-%d/TEMP)*dsqrt(dabs(TEMP-250.0))" % (_lit(g, lo, hi), int(g.integers(10, 900))),
            lambda: _upscaled(g, lo, hi),
            lambda: "%s*(%s)**%s" % (_lit(g, lo, hi), g.choice(["TEMP/300", "300/TEMP", "TEMP/300.", "298.0/TEMP"]),
                                     g.choice(["(-2.6)", "(-2)", "3.3", "(0.5+0.4)", "3"])),
            lambda: "%s*EXP(%s)" % (_lit(g, lo, hi), g.choice(["+250/TEMP", "-(250.0+TEMP)/TEMP", "-1.0E3/TEMP", "250.*(1/TEMP-1/298.)",
                                                                "-2.0E+02/TEMP", "(-300)/TEMP", "-300*TEMP**(-1)"])),
            lambda: "%s*dlog10(TEMP)" % _lit(g, lo, hi),
            lambda: "%d.%s%d*%s" % (int(g.integers(1, 9)), "DE"[int(g.integers(2))], int(g.integers(lo, 0)), _exp(g)),
            lambda: "%s/(%s+%s)/%s" % (_lit(g, lo, hi), frac(), _exp(g), frac()),
            lambda: "%s-%s*%s" % (_lit(g, hi, hi), _lit(g, lo, hi - 2), frac()),
        ]
        if photo:
            shapes += [lambda: "%s+%s+%s*%s" % (jj(), jj(), jj(), frac()),
                       lambda: "(%s+%s)*%s" % (jj(), jj(), _exp(g)),
                       lambda: "%s*(%s)+%s" % (jj(), frac(), nm())]
    while True:
        text = str(shapes[int(g.integers(len(shapes)))]())
        if len(text) <= 100:
            return text


def constant_rate(g, order):
    """A rate constant of the order's own scale, so that trajectories stay integrable."""
    if order == 1:
        return _lit(g, -6, -1)
    hi = max(int(round(-12 - 12 * (order - 2))), -33)
    return _lit(g, hi - 4, hi)


COEFS = [2.0, 3.0, 0.5, 0.25, 1.5, 0.333, 0.07, 10.0, 12.0, 0.001, 0.65, 2.5]
WIDE = COEFS + [12.5, 10.25, 100.0, 0.005, 22.75, 1.05, 110.5, 11.0, 20.0, 1.25, 0.1, 0.995, 0.333333333333, 0.123456789012]


def extent(g, large, reactions, species, many=(420, 150)):
    """How many reactions and species: usually drawn from the given ranges, now and then as many as real mechanisms have."""
    if large:
        return int(g.integers(many[0] // 2, many[0])), int(g.integers(many[1] // 2, many[1]))
    return int(g.integers(*reactions)), int(g.integers(*species))


def random_mech(g, reactions, species, rates="mixed", special=True, photo=True, ro2=True, hostile=True,
                fractional_reactants=False, rich=False, wide=False, closed=False, names=None):
    """A random mechanism. closed: every reaction conserves a hidden family count; fractional_reactants: orders
    such as 0.5 and 2.5 too; rich: any number of the reactants carry a coefficient; wide: coefficients of every
    spelling on both sides (for parsing, not for integrating)."""
    orders = [2.0, 3.0] + ([1.5, 2.5, 0.5, 0.25, 0.75, 1.25] if fractional_reactants else []) + (WIDE if wide else [])
    coefs = WIDE if wide else COEFS
    pool = list(NAMES if names is None else names)
    if ro2 and names is None:
        pool = pool + [x for x in RO2_POOL if not x.endswith("x")]
    g.shuffle(pool)
    sp = pool[:species]
    if len(sp) < species:
        sp += ["S%dX%d" % (i, i * 7 % 10) for i in range(species - len(sp))]
    if ro2 and names is None and not any(s in RO2_POOL for s in sp):
        sp[0] = "CH3O2"
    fam = {s: i % max(1, species // 4) for i, s in enumerate(sp)}
    by = {}
    for s, f in fam.items():
        by.setdefault(f, []).append(s)
    pick = lambda: sp[int(g.integers(len(sp)))]

    def decimal(values, lo, hi):
        """One of the values, or now and then any decimal fraction."""
        if g.random() < 0.8:
            return float(values[int(g.integers(len(values)))])
        return max(lo, round(float(10.0 ** g.uniform(np.log10(lo), np.log10(hi))), int(g.integers(1, 9))))

    order_of = (lambda: decimal(orders, 0.1, 2.9)) if fractional_reactants or wide else (lambda: float(g.choice(orders)))
    out = []
    for k in range(reactions):
        nr = int(g.choice([1, 1, 2, 2, 2, 3]))
        left = [(pick(), 1.0) for _ in range(nr)]
        if g.random() < 0.15:
            left[-1] = (left[0][0], 1.0)  # a repeated reactant
        if g.random() < 0.12 and nr <= 2:
            left[0] = (left[0][0], order_of())
        elif (rich or wide) and g.random() < 0.4:
            left = [(s, order_of() if g.random() < 0.6 else c) for s, c in left]
        right = []
        if closed:
            for s, c in left:
                peers = by[fam[s]]
                if g.random() < 0.4 and len(peers) > 1:
                    f = min(0.999, decimal([0.25, 0.5, 0.125, 0.75], 0.001, 0.99))
                    right.append((peers[int(g.integers(len(peers)))], round(c * f, 9)))
                    right.append((peers[int(g.integers(len(peers)))], round(c - round(c * f, 9), 9)))
                else:
                    right.append((peers[int(g.integers(len(peers)))], c))
        else:
            for _ in range(int(g.choice([0, 1, 1, 2, 2, 3, 4]))):
                c = 1.0 if g.random() < 0.65 else decimal(coefs, 1e-6 if rich or wide else 1e-3, 10.0)
                right.append((pick(), c))
            if right and g.random() < 0.12:
                right.append((right[0][0], float(g.choice([1.0, 0.5, 2.0]))))  # a repeated product
            if g.random() < 0.12:
                right.append((left[0][0], float(g.choice([1.0, 2.0, 0.5]))))  # a catalyst
            if special and g.random() < 0.08:
                right.append((str(g.choice(SPECIAL)), 1.0))
        if special and g.random() < 0.06 and nr < 3:
            left.append((str(g.choice(SPECIAL)), 1.0))
        order = sum(c for s, c in left)
        if rates == "constant":
            rate = constant_rate(g, order)
        else:
            rate = random_rate(g, hostile=hostile, photo=photo, ro2=ro2, order=1 if order == 1 else 2)
        if photo and g.random() < 0.12:
            left.insert(int(g.integers(0, len(left) + 1)), ("hv", 1.0))
        out.append(Reaction(left, right, rate))
    m = Mech(out)
    m.family = fam if closed else {}
    return m


# ---- writing ------------------------------------------------------------------
class Style:
    """How a mechanism is laid out; every choice leaves its meaning alone."""

    def __init__(self, g=None, **kw):
        self.g = g
        self.dot = True          # {1.} or {1}
        self.label = ""          # "" | before | after | zero | tab: white space or zeros around the number
        self.pad = " "           # around + and =
        self.coef_gap = ""       # between coefficient and name
        self.newlines = False    # break lines inside a reaction
        self.crlf = False
        self.one = False         # write coefficient 1 out
        self.decimals = "plain"  # plain | long | lead
        self.unfold = False      # 2A as A + A
        self.fold = False        # A + A as 2A
        self.header = ""
        self.trailer = ""
        self.joined = False      # several reactions on one line
        self.shuffle = False     # order of the terms of a side
        self.between = ""        # a line between reactions
        self.__dict__.update(kw)

    @classmethod
    def random(cls, g, order=True):
        c = lambda *a: a[int(g.integers(len(a)))]
        return cls(g, dot=c(True, True, False), pad=c(" ", "", "  ", "\t", " \t "), coef_gap=c("", "", " ", "  "),
                   newlines=c(False, True), crlf=c(False, False, True), one=c(False, True),
                   decimals=c("plain", "long", "lead"), unfold=c(False, True), fold=c(False, False, True),
                   header=c("", "// mechanism file, 3 reactions: A + B = C ;\n", "* header line\n\n", "#DEFVAR : none ;\n"),
                   trailer=c("", "\n", "\n// end of file\n"), label=c("", "", "before", "after", "zero", "tab"), joined=c(False, False, True),
                   shuffle=order and c(False, True),
                   between=c("", "", "\n", "// peroxy radicals; A + B = C :\n", "# 4. nitrogen oxides = NOx\n"))


def _number(c, style):
    plain = np.format_float_positional(c)       # mechanism files know no exponents
    if style.decimals == "long":
        return "%.6f" % c if abs(c * 1e6 - round(c * 1e6)) < 1e-9 else plain
    if style.decimals == "lead" and 0 < c < 1:
        return plain[1:]
    return repr(int(c)) if c == int(c) else plain


def _side(terms, style):
    ts = list(terms)
    if style.fold:
        tot = {}
        for s, c in ts:
            tot[s] = tot.get(s, 0.0) + c
        ts = [(s, c) for s, c in tot.items()] if not any(s == "hv" for s, _ in ts) else ts
    if style.unfold:
        out = []
        for s, c in ts:
            if c == int(c) and 1 < c <= 3 and s != "hv":
                out += [(s, 1.0)] * int(c)
            else:
                out.append((s, c))
        ts = out
    if style.shuffle and len(ts) > 1:
        p = style.g.permutation(len(ts))
        ts = [ts[i] for i in p]
    words = []
    for s, c in ts:
        if s == "hv" or (c == 1.0 and not (style.one and style.g is not None and style.g.random() < 0.5)):
            words.append(s)
        else:
            words.append(_number(c, style) + style.coef_gap + s)
    br = "\n   " if style.newlines and style.g.random() < 0.5 else ""
    return (style.pad + "+" + style.pad + br).join(words)


def _rate(text, style):
    if style.newlines and style.g.random() < 0.5:
        i = text.find("*")
        if i > 0 and text[i:i + 2] != "**":
            return text[:i + 1] + "\n\t" + text[i + 1:]
    if style.pad == "  ":
        return text.replace("*RO2", " * RO2").replace("*EXP", " * EXP")
    return text


def write(mech, style=None):
    style = style or Style()
    parts = []
    for k, r in enumerate(mech.reactions):
        nl = "\n" if style.newlines and style.g.random() < 0.3 else ""
        number = {"before": " %d", "after": "%d", "zero": "%04d", "tab": "\t%d"}.get(style.label, "%d") % (k + 1)
        number += "." if style.dot and style.label != "after" else " " if style.label == "after" else ""
        body = "{%s}%s%s%s=%s%s%s%s:%s%s%s;" % (
            number, style.pad, _side(r.reactants, style), style.pad, style.pad, nl,
            _side(r.products, style), style.pad, style.pad, _rate(r.rate, style), style.pad)
        if style.between and not style.joined and k and style.g.random() < 0.25:
            body = style.between + body
        parts.append(body)
    text = style.header + (" " if style.joined else "\n").join(parts) + "\n" + style.trailer
    return text.replace("\n", "\r\n") if style.crlf else text
