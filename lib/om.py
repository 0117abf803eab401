"""C19: neutron transmission coefficients against an independent optical-model solution."""
import math
import numpy as np
import drv, intern, levels as L, optmod
from core import Result, rng_for

# the code's own constant for (hbar/m_pi c)^2; 2.0 in other codes
CSO = 2.04553
NL = 50


def tol(T, e):
    """numerical agreement of two solvers: 1 % of the coefficient; absolute floor where the code's
    1-|S|^2 loses digits (measured 20 % at 1e-6 near 30 MeV)"""
    return 0.01 * T + 2e-6 * min(1.0, (e / 20.0) ** 4) + 1e-11


def judge(res, case, what, z, a, e, mu, lm, t, react=None):
    """t[l][0], t[l][1] for l=0..; t beyond lm ignored"""
    lmo = max(lm, 0) + 3
    T, _ = optmod.transmission(z, a, e, mu, lmo, h=0.04, cso=CSO)
    for l in range(lm + 1):
        for j in (0, 1):
            if l == 0 and j == 1:
                continue
            v = t[l][j]
            if not math.isfinite(v) or v < 0.0 or v > 1.0 + 1e-9:
                res.fail("range", "%s: T(l=%d,j=l%s1/2) = %g for a %g MeV neutron on Z=%d A=%d" % (what, l, "+-"[j], v, e, z, a), case)
                return
            if abs(v - T[l, j]) > tol(T[l, j], e):
                res.fail("optical-model", "%s: T(l=%d,j=l%s1/2) = %.6g, the potential gives %.6g, for a %g MeV neutron on Z=%d A=%d" % (what, l, "+-"[j], v, T[l, j], e, z, a), case)
                return
    tot = sum((l + 1) * T[l, 0] + l * T[l, 1] for l in range(lmo + 1))
    left = sum((l + 1) * T[l, 0] + l * T[l, 1] for l in range(lm + 1, lmo + 1))
    if left > 2e-4 * tot:
        res.fail("waves-omitted", "%s: partial waves above l=%d carry %.2e of the reaction cross section of %g MeV neutrons on Z=%d A=%d" % (what, lm, left / tot, e, z, a), case)
    if react is not None:
        s = sum((l + 1) * t[l][0] + l * t[l][1] for l in range(lm + 1))
        if not (react > 0) or abs(react - s) > 1e-9 * s:
            res.fail("sum-rule", "reaction cross section %.8g, weighted sum of its coefficients %.8g (%g MeV on Z=%d A=%d)" % (react, s, e, z, a), case)


def run(case):
    res = Result()
    if not intern.ready("i_om"):
        return intern.api_fallback(case.get("task", 0), "C19")
    z, a = case["za"]
    d = case.get("_d")
    own = d is None
    c = {k: v for k, v in case.items() if k != "_d"}
    try:
        if own:
            d = drv.Driver(L.random_scheme(rng_for("omS", c.get("scheme", 0)), nmax=8), exe="i_om")
        if case["kind"] == "om":
            f = d.cmd("om %d %d %s" % (z, a, " ".join(repr(x) for x in case["e"]))).split()
            mu, p = float(f[1]), 2
            for e in case["e"]:
                lm, re = int(f[p]), float(f[p + 1])
                t = np.array([float(x) for x in f[p + 2:p + 2 + 2 * NL]]).reshape(NL, 2)
                p += 2 + 2 * NL
                if (z, a) != (0, 0):
                    one = dict(kind="om", za=[z, a], e=[e])
                    if e > 0:
                        judge(res, one, "coefficient", z, a, e, mu, lm, t, re)
                    res.case(key=(z, a, e), sample="%g MeV neutron on Z=%d A=%d: %d partial waves, reaction sum %.3g" % (e, z, a, lm + 1, re))
        else:
            u = case["u"]
            f = d.cmd("st %d %d %r" % (z, a, u)).split()
            if f[1] == "closed":
                res.case()
                return res
            mu, p = float(f[1]), 2
            nb = 0
            while p < len(f):
                q, e, ec, lm = int(f[p]), float(f[p + 1]), float(f[p + 2]), int(f[p + 3])
                t = np.array([float(x) for x in f[p + 4:p + 64]]).reshape(30, 2)
                p += 64
                if e < 1e-6:
                    continue
                if abs(ec - e) > 1e-9:
                    res.fail("stored-energy", "decay of Z=%d A=%d at %g MeV: coefficients stored for a neutron energy of %.8g where the final state leaves %.8g" % (z, a, u, ec, e), c)
                    break
                judge(res, c, "stored for the decay of Z=%d A=%d at %.3f MeV" % (z, a, u), z, a - 1, e, mu, lm, t)
                nb += 1
            res.case(key=(z, a, u, "st"), nontrivial=nb > 3, sample="decay of Z=%d A=%d at %.2f MeV: %d final states" % (z, a, u, nb))
            res.add("stored_sets", nb)
    except drv.Died as ex:
        if ex.rc == "timeout":
            res.add("timeout")
        else:
            res.fail("died", "no coefficients for %r: %s" % ({k: v for k, v in c.items()}, ex.err[-200:]), c)
    finally:
        if own and d is not None:
            d.close()
    return res


def energies(r):
    x = r.random()
    if x < 0.35:
        return 10 ** r.uniform(-5, 1.5)
    if x < 0.45:
        return r.choice([1e-6, 1e-4, 1e-3, 0.01, 0.1, 1.0, 5.0, 10.0, 20.0, 30.0])
    return r.uniform(0.01, 25.0) if x < 0.7 else r.expovariate(1 / 2.0) + 1e-3


def task_fn(t):
    res = Result()
    if not intern.ready("i_om"):
        return intern.api_fallback(t["id"], "C19")
    r = rng_for("C19", t["seed"], t["id"])
    sc = r.randint(0, 10 ** 6)
    d = drv.Driver(L.random_scheme(rng_for("omS", sc), nmax=8), exe="i_om")
    try:
        for i in range(t["n"]):
            za = list(r.choice(t["nuc"]))
            if r.random() < 0.75:
                c = dict(kind="om", za=za, e=[energies(r) for _ in range(5)], _d=d)
            else:
                c = dict(kind="st", za=za, u=r.uniform(4.0, 30.0), scheme=sc, _d=d)
            res.merge(run(c))
            if d.p.poll() is not None:
                d.close()
                d = drv.Driver(L.random_scheme(rng_for("omS", sc), nmax=8), exe="i_om")
    finally:
        d.close()
    return res


def tasks(tier, seed):
    nuc = L.nuclei(26, 70)
    k = 16 if tier == "quick" else 160
    return [dict(id=i, seed=seed, nuc=nuc[i % 16::16], n=100 if tier == "quick" else 200) for i in range(k)]


def shrink(c):
    if c.get("kind") == "st":
        for u in (8.0, 12.0, 16.0):
            if u < c["u"]:
                yield dict(c, u=u)
    elif c.get("kind") == "om":
        for e in (1.0, 0.1, 10.0):
            yield dict(c, e=[e])
