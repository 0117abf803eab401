"""C18: decay probabilities of a nuclear state (exact, against the written-out sum over channels) and the
sampled cascade (statistically, against a cascade sampled from those probabilities)."""
import math
import numpy as np
from scipy import stats
import drv, intern, levels as L
from core import Result, rng_for

NAMES = ("nan", "open", "ts", "sum", "min", "worst", "bad", "above", "gam", "cells", "top", "ncont", "ndisc")


def hf_scheme(k):
    r = rng_for("hfS", k)
    g, n = r.choice([((0.02, 0.6), 12), ((0.05, 0.3), 25), ((0.3, 1.0), 8), ((0.01, 0.1), 8)])
    return L.random_scheme(r, gaps=g, nmax=n)


def mc_scheme(k):
    """every level decays straight to the ground state by one photon"""
    S = L.random_scheme(rng_for("mcS", k), gaps=(0.15, 0.6), nmax=6)
    for lv in S.values():
        for i, l in enumerate(lv):
            l["T"] = 0.0
            l["g"] = [(0, 1.0, 0.0)] if i else []
    return S


def run_hf(res, case, d):
    z, a, u, c, e, idx, p = case["hf"]
    f = d.cmd("hf %d %d %r %d %r %d %d" % (z, a, u, c, e, idx, p)).split()
    if f[1] == "discrete":
        res.case()
        return
    x = dict(zip(NAMES, (float(v) for v in f[1:14])))
    where = f[14] if len(f) > 14 else "-"
    name = "state at %.4f MeV, spin index %d, parity %+d of Z=%d A=%d%s" % (min(e, u), idx, p, z, a, " after one neutron" if c else "")
    if x["nan"]:
        res.fail("nan", "decay of the %s: a probability is not a number" % name, case)
        return
    if x["min"] < 0:
        res.fail("negative", "decay of the %s: a probability is %g" % (name, x["min"]), case)
    if abs(x["sum"] - 1) > 1e-9:
        res.fail("conservation", "decay of the %s: probabilities of the final states add up to %.12g" % (name, x["sum"]), case)
    if x["above"] > 0:
        res.fail("above", "decay of the %s: %.3g of the probability reaches states above the available energy" % (name, x["above"]), case)
    if x["ts"] > 0:
        if x["bad"] > 1e-12:
            res.fail("selection-rule", "decay of the %s: %.3g of the probability reaches states no allowed transition leads to (%s)" % (name, x["bad"], where), case)
        elif x["worst"] > 1e-8:
            res.fail("shares", "decay of the %s: share of a final state is off by %.3g (%s)" % (name, x["worst"], where), case)
    else:
        res.add("nothing_allowed")
    res.add("neutron_open", int(x["open"]))
    res.case(key=(z, a, u, c, e, idx, p), nontrivial=x["ts"] > 0 and x["cells"] > 3,
             sample="%s: %d final states, photon share %.4g" % (name, x["cells"], x["gam"]))


def parse(s):
    f = s.split()[1:]
    p, out = 0, []
    while p < len(f):
        nn, ng = int(f[p]), int(f[p + 1])
        out.append(([float(v) for v in f[p + 2:p + 2 + nn]], [float(v) for v in f[p + 2 + nn:p + 2 + nn + ng]]))
        p += 2 + nn + ng
    return out


def two(x, y):
    """two-sample chi-square over pooled categories with at least 12 entries"""
    keys = sorted(set(x) | set(y))
    cx, cy = [x.count(k) for k in keys], [y.count(k) for k in keys]
    rows, a, b = [], 0, 0
    for u, v in zip(cx, cy):
        a += u
        b += v
        if a + b >= 24:
            rows.append((a, b))
            a = b = 0
    if a + b:
        if rows:
            rows[-1] = (rows[-1][0] + a, rows[-1][1] + b)
    if len(rows) < 2:
        return 1.0
    return stats.chi2_contingency(np.array(rows).T, correction=False)[1]


def edges(v, n=24):
    v = sorted(v)
    return [v[int(i * len(v) / n)] for i in range(1, n)]


def run_mc(res, case, d):
    z, a, u, idx, p, n, s1 = case["mc"]
    A = parse(d.cmd("sim %d %d %r %d %d %d %d" % (z, a, u, idx, p, n, s1)))
    B = parse(d.cmd("mc %d %d %r %d %d %d %d" % (z, a, u, idx, p, n, s1 + 7919)))
    name = "Z=%d A=%d at %.3f MeV, spin index %d, parity %+d" % (z, a, u, idx, p)
    obs = {
        "neutrons": lambda h: len(h[0]),
        "photons": lambda h: len(h[1]),
        "entry": lambda h: (len(h[0]), round(h[1][-1], 4)) if h[1] else (len(h[0]), 0.0),
        "first-neutron": lambda h: h[0][0] if h[0] else -1.0,
        "last-neutron": lambda h: h[0][-1] if h[0] else -1.0,
        "first-photon": lambda h: h[1][0] if h[1] else -1.0,
        "second-photon": lambda h: h[1][1] if len(h[1]) > 1 else -1.0,
        "neutron-sum": lambda h: sum(h[0]),
    }
    for k, fn in obs.items():
        x, y = [fn(h) for h in A], [fn(h) for h in B]
        if k not in ("neutrons", "photons", "entry"):
            ed = sorted(set(edges(x + y)))
            x, y = (list(np.searchsorted(ed, [round(q, 6) for q in v])) for v in (x, y))
            x, y = [int(q) for q in x], [int(q) for q in y]
        if k == "entry":     # level by energy; gather the continuum-like rest
            c = {}
            for q in x + y:
                c[q] = c.get(q, 0) + 1
            x, y = ([q if c[q] >= 24 else (-1, 0.0) for q in v] for v in (x, y))
        pv = two(x, y)
        res.add("statistical_tests")
        if pv < 1e-9:
            res.fail("cascade-" + k, "cascades of %s: distribution of '%s' differs from that of the decay probabilities (p=%.2g, %d histories each)" % (name, k, pv, n), case)
    sn = sum(len(h[0]) for h in B)
    res.n += n - 1
    for i in range(0, n, 50):
        res.nontrivial.add("mc%r%d" % (case["mc"], i))
    res.case(key=("mc", z, a, u, idx, p), sample="%d cascades of %s: %.2f neutrons, %.2f photons" % (n, name, sn / n, sum(len(h[1]) for h in B) / n))


def run(case, d=None):
    res = Result()
    if not intern.ready("i_hf"):
        return intern.api_fallback(0, "C18")
    own = d is None
    try:
        if own:
            d = drv.Driver(hf_scheme(case["scheme"]) if "hf" in case else mc_scheme(case["scheme"]), exe="i_hf", timeout=600)
        (run_hf if "hf" in case else run_mc)(res, case, d)
    except drv.Died as ex:
        if ex.rc == "timeout":
            res.add("timeout")
        elif ex.rc in (1, 255) and ex.err.strip():
            res.add("refused")
        else:
            res.fail("died", "decay of %r ended with status %s: %s" % (case, ex.rc, ex.err[-200:]), case)
    finally:
        if own and d is not None:
            d.close()
    return res


def task_fn(t):
    res = Result()
    if not intern.ready("i_hf"):
        return intern.api_fallback(t["id"], "C18")
    r = rng_for("C18", t["seed"], t["kind"], t["id"])
    nuc = L.nuclei(28, 68)
    if t["kind"] == "mc":
        for _ in range(t["k"]):
            z, a = r.choice(nuc)
            c = dict(scheme=r.randint(0, 10 ** 6), mc=[z, a, round(r.uniform(3.0, 16.0), 4), r.randint(0, 10), r.choice([-1, 1]), t["n"], r.randint(1, 10 ** 6)])
            res.merge(run(c))
        return res
    d = None
    try:
        for i in range(t["n"]):
            if i % 30 == 0:
                sc = r.randint(0, 10 ** 6)
                if d:
                    d.close()
                d = drv.Driver(hf_scheme(sc), exe="i_hf")
            z, a = r.choice(nuc)
            u = r.uniform(0.5, 30.0)
            if r.random() < 0.3:
                u = r.uniform(0.5, 9.0)
            c = r.choice([0, 0, 0, 1])
            e = u if c == 0 and r.random() < 0.6 else u * r.random()
            idx = r.choice([r.randint(0, 4), r.randint(0, 15), r.randint(0, 30)])
            case = dict(scheme=sc, hf=[z, a, u, c, e, idx, r.choice([-1, 1])])
            res.merge(run(case, d))
            if d.p.poll() is not None:
                d.close()
                d = drv.Driver(hf_scheme(sc), exe="i_hf")
    finally:
        if d:
            d.close()
    return res


def tasks(tier, seed):
    q = tier == "quick"
    t = [dict(kind="mc", id=i, seed=seed, k=1 if q else 6, n=1500 if q else 5000) for i in range(24 if q else 64)]
    return t + [dict(kind="hf", id=i, seed=seed, n=120 if q else 1500) for i in range(32 if q else 64)]


def shrink(c):
    if "hf" in c:
        z, a, u, k, e, idx, p = c["hf"]
        for i in (0, 1, 2):
            if i < idx:
                yield dict(c, hf=[z, a, u, k, e, i, p])
        if k:
            yield dict(c, hf=[z, a, u, 0, u, idx, p])
        for v in (3.0, 6.0, 10.0):
            if v < u:
                yield dict(c, hf=[z, a, v, k, min(e, v), idx, p])
