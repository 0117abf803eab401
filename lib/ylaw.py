"""Independent implementation of the laws behind fragment sampling (masses, charges, kinetic energies, spins,
excitation-energy sharing), from the documented formulae and the data files shipped with the tree."""
import math, os
import numpy as np
from scipy.special import erf, ndtr
import drv, gen
from phys import *


def _rows(name):
    for l in open(os.path.join(drv.DATA, name)):
        if l.strip() and l[0] != "#":
            yield l.split("#")[0]


class Data:
    def __init__(self):
        self.ya = {}
        for l in _rows("yamodel.dat"):
            f = l.split()
            if len(f) >= 15:
                self.ya[int(f[0])] = [float(x) for x in f[1:15]]
        self.tke = {}
        for l in _rows("tkemodel.dat"):
            f = l.split()
            if len(f) == 27:
                self.tke[int(f[0])] = [float(x) for x in f[1:]]
        self.alpha = {}
        for l in _rows("spinscalingmodel.dat"):
            f = l.split()
            self.alpha[int(f[0])] = (float(f[1]), float(f[2]))
        self.rta = {}
        for l in _rows("rta.dat"):
            f = l.split()
            a0, a1 = int(f[1]), int(f[2])
            self.rta[abs(int(f[0]))] = {a: float(x) for a, x in zip(range(a0, a1 + 1), f[3:])}
        self.beta2 = {}
        for l in open(os.path.join(drv.DATA, "deformations.dat")):
            if l[0] == "#" or len(l) < 51:
                continue
            try:
                z, a = int(l[0:4]), int(l[4:8])
                b = l[44:52].split()
                if b and a <= 199 and l[50] != " ":
                    self.beta2[1000 * z + a] = float(b[0])
            except ValueError:
                pass
        self.grid, self.temp = self._table("temperatures.dat", True)
        _, self.ldp = self._table("ldp.dat", False)

    def _table(self, name, grid):
        g, d = None, {}
        for l in _rows(name):
            f = [float(x) for x in l.split()]
            if grid and g is None:
                g = np.array(f)
            elif len(f) == 33:
                d[int(f[0])] = np.array(f[1:])
        return g, d

    def interp(self, tab, za, u):
        t = tab.get(za)
        if t is None:
            return np.full_like(np.asarray(u, float), 5.0)
        return np.interp(u, self.grid, t)


_D = None


def data():
    global _D
    if _D is None:
        _D = Data()
    return _D


def gauss(x, w, m, s):
    return w / (math.sqrt(2 * math.pi) * s) * np.exp(-0.5 * ((x - m) / s) ** 2)


VIOLA = {92: (-2.43783800e-03, 4.32954561), 93: (-2.47262338e-03, 4.46218351), 94: (-1.78668219e-03, 3.55865245), 98: (-3.44312133e-03, 6.20846742)}
RFIX = {92234: 1.2, 94238: 1.2, 94244: 1.2}
DZ = {94238: 6, 94240: 6, 94242: 6, 94244: 6, 98254: 6, 98252: 7}


def mass_law(z, a0, ac, e, sf, variant=0):
    """Y(A) of the fissioning nucleus (z, ac), initial compound a0, equivalent incident energy e; array over A"""
    d = data()
    za = 1000 * z + ac
    shift = 0
    key = -za if sf else za
    if key not in d.ya or a0 - ac > 3:
        key = 1000 * z + a0
        shift = ac - a0
    p = d.ya[key]
    w, mu, sg = [], [], []
    for m in (0, 6):
        w.append(1.0 / (1.0 + math.exp((e - p[m]) / p[m + 1])))
        mu.append(p[m + 2] + p[m + 3] * e + shift)
        sg.append(p[m + 4] + p[m + 5] * e)
    w0 = 2 - 2 * w[0] - 2 * w[1]
    s0 = p[12] + (p[5] if variant == 0 else p[13]) * e
    A = np.arange(0, 300, dtype=float)
    A = np.where(A >= ac // 2, A, ac - A)
    y = gauss(A, w0, ac / 2.0, s0)
    for i in (0, 1):
        y = y + gauss(A, w[i], mu[i], sg[i]) + gauss(A, w[i], ac - mu[i], sg[i])
    y = np.where(y > 1e-5, y, 0.0)
    return y / y.sum()


def light_mass(y, ac):
    """probability of each light mass"""
    out = np.zeros(ac // 2 + 1)
    for a in range(1, ac // 2 + 1):
        out[a] = y[a] + (y[ac - a] if ac - a != a else 0.0)
    return out


def tke_law(z, a0, ac, e, sf, y):
    """mean and width of the kinetic energy as function of heavy mass"""
    d = data()
    za = 1000 * z + ac
    key = -za if sf else za
    if key in d.tke and a0 - ac <= 3:
        p = d.tke[key]
        m = p[0] + p[2] * e if e <= p[1] else p[0] + (p[2] - p[3]) * p[1] + p[3] * e
    else:
        x = z * z / ac ** (1.0 / 3)
        ia, ib = VIOLA.get(z, (0.0, 1.0))
        m = (0.1189 * x + 7.3) * (ia * x + ib) - 0.25 * e
        p = d.tke[(-1 if sf else 1) * (1000 * z + a0)]
    av, sd = np.full(300, 140.0), np.full(300, 7.0)
    for arr, q in ((av, p[4:15]), (sd, p[15:26])):
        for a in range((ac + 1) // 2, int(q[1]) + 1):
            arr[a] = sum(c * (a - q[0]) ** j for j, c in enumerate(q[2:]))
            arr[ac - a] = arr[a]
    return m / (av * y).sum() * av, sd


# ---------------------------------------------------------------- charge systematics (Wahl, LA-13928)
def wahl(zf, af, pe):
    """dict of functions of A: Z0, sigma, Fz, Fn"""
    def eq17(p, c):
        c = list(c) + [0] * (5 - len(c))
        return c[0] + c[1] * (zf - 92) + c[2] * (af - 236) + c[3] * (p - 6.551) + c[4] * (af - 236) ** 2

    def eq19(p, c):
        c = list(c) + [0] * (5 - len(c))
        p1, p2 = c[0] + c[2] * (zf - 92), c[1] + c[3] * (zf - 92)
        return p1 + (p2 - p1) * (1 - math.exp(-c[4] * p))
    low = dict(sigz140=[.566, 0, .0064, .0109, 0], delz140=[-.487, 0, .018, 0, -.00203], Fz140=[1.207, 0, -.042, 0, .0022], Fn140=[1.076],
               sigzSL=[-.0038], delzSL=[-.008], FzSL=[.003], FnSL=[-.0006], SL50=[.191, 0, -.0076], sigz50=[.356, .06], delzmax=[.699],
               sigzSLW=[-.045, .0094], delzSLW=[0, -.0045], FzSLW=[.159, -.028], FnSLW=[.039])
    high = dict(sigz140=[.542, 1.31, .033, 0, -.005], delz140=[-.428, 0, 0, .164, -.0116], Fz140=[1.0], Fn140=[1.0],
                SL50=[.191, 0, -.0076, 0, 0], sigz50=[.542, 1.31, .033, 0, -.005])
    q = {}
    for k, c in low.items():
        h = high.get(k)
        hv = lambda p: eq19(p, h) if h else 0.0
        if pe <= 8:
            q[k] = eq17(pe, c)
        elif pe >= 20:
            q[k] = hv(pe)
        else:
            f = (pe - 8.0) / 12.0
            q[k] = f * hv(20.0) + (1 - f) * eq17(8.0, c)
    return q


def charge_law(zf, af, pe, dz, amin=50, amax=200):
    """P(Z|A) for every A as (first Z, probabilities)"""
    q = _wahl_params(zf, af, pe)
    out = {}
    for a in range(amin, amax + 1):
        z0, s, fz, fn = _wahl_point(q, zf, af, float(a))
        iz = int(math.floor(z0 + 0.5))
        p = []
        for z in range(iz - dz, iz + dz + 1):
            if z % 2 == 0:
                oe = fz * fn if a % 2 == 0 else fz / fn
            else:
                oe = fn / fz if a % 2 else 1.0 / (fz * fn)
            p.append(oe * 0.5 * (erf((z - z0 + .5) / (math.sqrt(2) * s)) - erf((z - z0 - .5) / (math.sqrt(2) * s))) if s > 0 else float(z == iz))
        p = np.array(p)
        out[a] = (iz - dz, p / p.sum())
    return out


def _wahl_params(zf, af, pe):
    q = wahl(zf, af, pe)
    if q["sigz50"] <= 0:
        q["sigz50"] = q["sigz140"]
    f1 = min(1.0, max(0.0, (250 - af) / 14.0))
    ak1 = 50.0 * af / zf - q["delzmax"] / q["SL50"]
    ak2 = (50.0 - q["delzmax"]) * af / zf
    q["Bb"] = f1 * ak1 + (1 - f1) * ak2
    q["Ba"] = af - q["Bb"]
    q["B1"], q["B2"] = 70.0, 77 + .036 * (af - 236)
    q["B4"] = (q["delzmax"] - q["delz140"] + q["Bb"] * q["SL50"] + 140 * q["delzSL"]) / (q["SL50"] + q["delzSL"])
    q["B3"], q["B5"], q["B6"] = af - q["B4"], af - q["B2"], af - q["B1"]
    return q


def _wahl_point(q, zf, af, a):
    ac = af - a
    sB5 = q["sigz140"] + q["sigzSL"] * (q["B5"] - 140)
    dB5 = q["delz140"] + q["delzSL"] * (q["B5"] - 140)
    r = None
    pk = lambda x, s: (s * (q["delz140"] + q["delzSL"] * (x - 140)), q["sigz140"] + q["sigzSL"] * (x - 140),
                       q["Fz140"] + q["FzSL"] * (x - 140), q["Fn140"] + q["FnSL"] * (x - 140))
    if q["B2"] <= a <= q["B3"]:
        r = pk(ac, -1)
    elif q["B4"] <= a <= q["B5"]:
        r = pk(a, 1)
    if q["B3"] <= a <= q["Ba"]:
        r = (-q["delzmax"] - q["SL50"] * (a - q["Ba"]), q["sigz50"], 1.0, 1.0)
    elif q["Ba"] <= a <= q["Bb"]:
        r = (-q["delzmax"] + (a - q["Ba"]) * 2 * q["delzmax"] / (q["Bb"] - q["Ba"]), q["sigz140"] - q["sigzSL"] * (140 - q["Bb"]), 1.0, 1.0)
    elif q["Bb"] <= a <= q["B4"]:
        r = (q["delzmax"] - q["SL50"] * (a - q["Bb"]), q["sigz50"], 1.0, 1.0)
    if q["B1"] <= a <= q["B2"]:
        r = (-dB5 + q["delzSLW"] * (ac - q["B5"]), sB5 + q["sigzSLW"] * (q["B2"] - a), q["Fz140"] + q["FzSLW"] * (q["B2"] - a), q["Fn140"] + q["FnSLW"] * (q["B2"] - a))
    elif q["B5"] <= a <= q["B6"]:
        r = (dB5 - q["delzSLW"] * (a - q["B5"]), sB5 + q["sigzSLW"] * (a - q["B5"]), q["Fz140"] + q["FzSLW"] * (a - q["B5"]), q["Fn140"] + q["FnSLW"] * (a - q["B5"]))
    if a <= q["B1"]:
        r = (-dB5, sB5, q["Fz140"], q["Fn140"])
    elif a >= q["B6"]:
        r = (dB5, sB5, q["Fz140"], q["Fn140"])
    dz, s, fz, fn = r
    return zf / float(af) * a + dz, s, fz, fn


def region(q, a):
    if a <= q["B1"] or a >= q["B6"]:
        return "far"
    if a < q["B2"] or a > q["B5"]:
        return "wing"
    if q["B3"] < a < q["B4"]:
        return "sym"
    return "peak"


# ---------------------------------------------------------------- spin
def alpha(z, ac, e, sf):
    a0, s = data().alpha.get((-1 if sf else 1) * (1000 * z + ac), (1.3, 0.0) if sf else (1.5, 0.071))
    return a0 if e < 0 else a0 + s * e


def spin_b2(z, a, u, al):
    d = data()
    b = d.beta2.get(1000 * z + a, 0.2)
    i = 0.4 * a ** (5. / 3) * 1.44 * 0.5 * (MNU + MPU) * AMU * (1 + 0.31 * b + 0.44 * b * b) * al
    return i * d.interp(d.temp, 1000 * z + a, u) / HBARC ** 2


JS = np.arange(50, dtype=float)


def spin_cdf(a, b2):
    """cumulative P(J<=j) for an array of B2: shape (n, 50)"""
    j = JS + (0.5 if a % 2 else 0.0)
    w = (2 * j + 1) * np.exp(-j * (j + 1) / (2 * np.asarray(b2)[:, None]))
    c = np.cumsum(w, axis=1)
    return c / c[:, -1:]


# ---------------------------------------------------------------- sharing
def share(iso, zl, al, zh, ah, txe):
    """iterates of the light fragment's excitation energy; the last is the converged one"""
    d = data()
    rt = RFIX.get(iso)
    if rt is None:
        rt = d.rta.get(iso, {}).get(ah, 1.0)
    el = eh = txe / 2.0
    L = lambda za, u: float(d.interp(d.ldp, za, u))
    zal, zah = 1000 * zl + al, 1000 * zh + ah
    a_l, a_h = L(zal, el), L(zah, eh)
    its = []
    for _ in range(60):
        eh = a_h / (a_l * rt * rt + a_h) * txe
        el = txe - eh
        its.append(el)
        o = a_l
        a_l, a_h = L(zal, el), L(zah, eh)
        if abs(a_l - o) <= 0.01:
            break
    # the next iterate, for rounding at the stopping rule
    its.append(txe - a_h / (a_l * rt * rt + a_h) * txe)
    return its
