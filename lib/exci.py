"""Independent two-component exciton model (as described in the doc: pre-equilibrium spectrum of the first neutron)."""
import math
import numpy as np
import optmod
from phys import *

AMUP = 931.4943335
HB2C2 = 4.33243296e-43 * 8.98755179e+46
_R = {}
_GRID = np.concatenate([[0.0125, 0.025, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.65, 0.8], np.arange(1.0, 3.0, 0.25), np.arange(3.0, 22.6, 0.75)])


def strength(z, a):
    """sum over partial waves of (l+1) T+ + l T- for a neutron on nucleus (z,a): interpolating function of the energy"""
    if (z, a) not in _R:
        from scipy.interpolate import CubicSpline
        m = mass_tab(z, a) / AMU
        mu = m * MNU / (m + MNU)
        v = []
        for e in _GRID:
            T, _ = optmod.transmission(z, a, float(e), mu, 8 + int(2.2 * math.sqrt(e)), h=0.08)
            l = np.arange(T.shape[0])
            v.append(float(((l + 1) * T[:, 0] + l * T[:, 1]).sum()))
        # smooth in the wave number: divide the s-wave k-dependence out
        k = np.sqrt(_GRID)
        _R[z, a] = CubicSpline(k, np.log(np.array(v) / k))
    f = _R[z, a]
    return lambda e: np.where(e > 0, np.exp(f(np.sqrt(np.maximum(e, 1e-3)))) * np.sqrt(np.maximum(e, 0)), 0.0)


def g1(x):
    return x / 19.2


def pairing(z, a):
    n = a - z
    return (2 - n % 2 - z % 2) * 12.0 / math.sqrt(a)


def depth(e, a):
    return 12.0 + 26.0 * e ** 4 / (e ** 4 + (245.0 * a ** (-1 / 3.)) ** 4)


def fu(n, ex, d, g):
    """Fu's pairing correction"""
    if d == 0.0:
        return np.zeros_like(ex)
    r = np.maximum(ex, 1e-12) / d
    nc = 2 * math.log(2) * g * math.sqrt(d / g) * 8 / 7.
    x = 0.996 - 1.76 * (n / nc) ** 1.6 * r ** -0.68
    return np.where(r >= 0.716 + 2.44 * (n / nc) ** 2.17, d * (1 - x * x), d)


def pauli(zp, zh, np_, nh, gz, gn):
    if min(zp, zh, np_, nh) < 0:
        return 0.0
    return (max(zp, zh) ** 2 - (zp * zp + zh * zh + zp + zh) / 4.) / gz + (max(np_, nh) ** 2 - (np_ * np_ + nh * nh + np_ + nh) / 4.) / gn


def well(n, h, ex, v):
    ef = 38.0
    if h > 1:
        v = ef
    ex = np.maximum(ex, 1e-12)
    if h == 0:
        return np.ones_like(ex)

    def series(v1):
        x = np.ones_like(ex)
        for i in range(1, h + 1):
            q = 1 - i * v1 / ex
            x = x + np.where(q > 0, (-1) ** i * math.comb(h, i) * np.maximum(q, 0) ** (n - 1.0), 0.0)
        return x
    if v < ef - 0.5:
        w = v * (ef - v) / (2 * ef)
        if n == 1:
            return np.where(ex > 1.16 * ef, 0.0, np.where(ex < v, 1.0, 1 / (1 + np.exp(np.minimum((ex - v) / w, 300)))))
        s = t = 0.0
        for p in range(-4, 5):
            v1 = v + p * w
            if v1 < 0 or v1 > ef:
                continue
            q = 1 / (1 + math.exp((v - v1) / w)) / (1 + math.exp((v1 - v) / w))
            s = s + q
            t = t + q * series(v1)
        return np.maximum(t / s, 0.0)
    return np.where(ex > v, series(v), 1.0)


class Space:
    def __init__(self, z, a, v):
        self.gz, self.gn, self.d, self.v = g1(z), g1(a - z), pairing(z, a), v

    def rho(self, ex, c):
        zp, zh, n_, nh = c
        ex = np.asarray(ex, float)
        h = zh + nh
        n = zp + n_ + h
        if n == 0 or min(c) < 0:
            return np.zeros_like(ex)
        u = ex - fu(n, ex, self.d, self.gz + self.gn)
        ap = pauli(zp, zh, n_, nh, self.gz, self.gn)
        ok = (ex > 0) & (u >= 0) & (u >= ap)
        f = math.factorial
        x = self.gz ** (zp + zh) * self.gn ** (n_ + nh) / (f(zp) * f(zh) * f(n_) * f(nh) * f(n - 1)) * np.where(ok, np.maximum(u - ap, 0), 1.0) ** (n - 1.0) * well(n, h, np.where(ok, u, 1.0), self.v)
        return np.where(ok, x, 0.0)


def simpson(f, a, b, n=100):
    x = np.linspace(a, b, n + 1)
    w = np.ones(n + 1)
    w[1:-1:2], w[2:-1:2] = 4, 2
    return float((f(x) * w).sum() * (b - a) / n / 3)


def spectrum(z, at, e, NMAX=6, f=None):
    """normalised spectrum of the neutron over the bins eps = 0.05 k (k=1,2,...)"""
    ac = at + 1
    m = at + me_tab(z, at) / AMUP
    ecm = e * m / (m + MNU)
    sn = me_tab(z, at) + ENEUTRON - me_tab(z, ac)
    ex = sn + ecm
    C, R = Space(z, ac, depth(e, ac)), Space(z, at, depth(e, at))
    nb = int(ecm / EBIN + 0.5) + 1
    k = np.arange(nb)
    er = ecm - EBIN * k
    er[-1] = 0.0
    # lowest bin ends at zero excitation
    eps = ecm - er
    s = (f or strength(z, at))(eps)
    mu = m * MNU / (m + MNU)
    c = AMUP / (HB2C2 * 10.0 * math.pi ** 2) * mu * 2
    W, wk, tau, tap = {}, {}, {}, {}
    tzp, tnp, tz0, tn0 = {}, {}, {}, {}
    E = lambda *q: pauli(*q, C.gz, C.gn)
    for i in range(NMAX):
        for j in range(NMAX):
            q = (i, i, 1 + j, j)
            for D in (wk, tau, tap, tzp, tnp, tz0, tn0):
                D[i, j] = 0.0
            om = float(C.rho(ex, q))
            if om == 0.0:
                continue
            w = c / om * eps * s * R.rho(er, (i, i, j, j))
            w[0] = 0.0
            W[i, j] = w
            wk[i, j] = w.sum() * EBIN
            n = 2 * i + 2 * j + 1
            M = (6.8 + 4.2e5 / (ex / n + 10.7) ** 3) / ac ** 3.0
            same, diff = 2 * math.pi * M, 2 * math.pi * 1.5 * M
            zp, zh, n_, nh = q

            def integ(lo, dq, new, cf):
                old = tuple(-x for x in dq)
                rest = tuple(x + y for x, y in zip(q, dq))
                if min(rest) < 0:
                    return 0.0
                p = E(*rest)
                return cf * simpson(lambda x: C.rho(x, new) * C.rho(x, old) * C.rho(ex - x, rest), lo - p, ex - p)
            if n == 1:
                for nm, dst, lo in (("z", tzp, E(1, 1, 1, 0)), ("n", tnp, E(0, 0, 2, 1))):
                    g = C.gz if nm == "z" else C.gn
                    t = ex - lo
                    if t > 0:
                        x1 = (n_ * C.gn) if nm == "n" else 0.0
                        x2 = 2 * n_ * C.gn * 1.5 if nm == "z" else 0.0
                        dst[i, j] = 2 * math.pi / 4 * g * g * t * t * (x1 + x2) * M * float(well(3, 1, np.array(ex), C.v))
            else:
                lo = E(zp + 1, zh + 1, n_, nh)
                tzp[i, j] = (integ(lo, (-1, 0, 0, 0), (2, 1, 0, 0), same) + integ(lo, (0, -1, 0, 0), (1, 2, 0, 0), same) +
                             integ(lo, (0, 0, -1, 0), (1, 1, 1, 0), diff) + integ(lo, (0, 0, 0, -1), (1, 1, 0, 1), diff)) / om
                lo = E(zp, zh, n_ + 1, nh + 1)
                tnp[i, j] = (integ(lo, (0, 0, -1, 0), (0, 0, 2, 1), same) + integ(lo, (0, 0, 0, -1), (0, 0, 1, 2), same) +
                             integ(lo, (-1, 0, 0, 0), (1, 0, 1, 1), diff) + integ(lo, (0, -1, 0, 0), (0, 1, 1, 1), diff)) / om
            lo = E(*q)
            tz0[i, j] = integ(lo, (-1, -1, 0, 0), (0, 0, 1, 1), diff) / om
            tn0[i, j] = integ(lo, (0, 0, -1, -1), (1, 1, 0, 0), diff) / om
            t1 = tzp[i, j] + tnp[i, j] + wk[i, j]
            t0 = t1 + tz0[i, j] + tn0[i, j]
            tau[i, j] = 1 / t0 if t0 > 0 else 0.0
            tap[i, j] = 1 / t1 if t1 > 0 else 0.0
    # occupation, one pass per total number of pairs (feeding only comes from fewer pairs)
    P = {(i, j): 0.0 for i in range(NMAX) for j in range(NMAX)}
    P[0, 0] = 1.0
    g = lambda D, a, b: D.get((a, b), 0.0)
    for tot in range(1, 2 * NMAX - 1):
        for i in range(NMAX):
            j = tot - i
            if not 0 <= j < NMAX:
                continue
            x = g(P, i - 1, j) * g(tzp, i - 1, j) * g(tau, i - 1, j) + g(P, i, j - 1) * g(tnp, i, j - 1) * g(tau, i, j - 1)
            x += g(tn0, i - 1, j + 1) * g(tau, i - 1, j + 1) * (g(P, i - 2, j + 1) * g(tzp, i - 2, j + 1) * g(tap, i - 2, j + 1) + g(P, i - 1, j) * g(tnp, i - 1, j) * g(tap, i - 1, j))
            x += g(tz0, i + 1, j - 1) * g(tau, i + 1, j - 1) * (g(P, i + 1, j - 2) * g(tnp, i + 1, j - 2) * g(tap, i + 1, j - 2) + g(P, i, j - 1) * g(tzp, i, j - 1) * g(tap, i, j - 1))
            P[i, j] = x
    out = np.zeros(nb)
    for q, w in W.items():
        out += w * tau[q] * P[q]
    return out / out.sum() if out.sum() > 0 else out
