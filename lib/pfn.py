"""Energies of the neutrons emitted before fission: evaporation spectra, pre-equilibrium spectra, their mixture."""
import math
import numpy as np
import drv, gen, intern, mcf, exci, ld, ang
import levels as L
from core import Result, rng_for
from phys import *

TARGETS = [(z, a) for z in range(90, 97) for a in range(int(2.52 * z), int(2.62 * z))]
_EV = {}
_EX = {}


def scheme(k):
    """level schemes of the heavy nuclei of a neutron chain; k=0: none at all"""
    if not k:
        return {}
    r = rng_for("pfnS", k)
    S = L.random_scheme(r, nmax=6)
    for z in range(90, 97):
        for a in range(int(2.44 * z), int(2.64 * z) + 2):
            if r.random() < 0.7:
                S[1000 * z + a] = L.random_nucleus(r, z, a, nmax=r.choice([1, 3, 8, 14]), gaps=(0.03, 0.15))
    return S


def evap(z, a, S, k0, top, key):
    """relative evaporation spectrum: bin k (k>=k0) leaves (z,a) with top-0.05k, the neutron has 0.05(k-k0)"""
    kk = (z, a, top, key)
    if kk not in _EV:
        if len(_EV) > 400:
            _EV.clear()
        o = ld.expected(z, a, ld.levels_of(S, z, a))
        if o["how"] == "degenerate":
            _EV[kk] = None
        else:
            nb = int(top / EBIN + 0.5) + 1
            ex = top - EBIN * np.arange(nb)
            ex[-1] = 0.0
            _EV[kk] = ex, np.array([ld.density(float(x), a, o)[0] for x in ex]), o
    if _EV[kk] is None or k0 >= len(_EV[kk][0]) - 1:
        return None
    ex, rho, o = _EV[kk]
    eps = ex[k0] - ex
    return ex, np.where(eps > 1e-9, eps * exci.strength(z, a)(eps) * rho, 0.0), o


def norm(w):
    return w / w.sum()


def compare(res, sig, case, name, v, w):
    """two normalised spectra over the same bins"""
    n = max(len(v), len(w))
    v, w = np.pad(v, (0, n - len(v))), np.pad(w, (0, n - len(w)))
    if not np.all(np.isfinite(v)) or v.min() < 0:
        return res.fail(sig, "%s: negative or non-finite probabilities" % name, case)
    if abs(v.sum() - 1) > 1e-6:
        return res.fail(sig, "%s: the spectrum adds up to %.6f" % (name, v.sum()), case)
    d = np.abs(np.cumsum(v) - np.cumsum(w))
    k = int(d.argmax())
    if d[k] > 0.006:
        return res.fail(sig, "%s: share below %.2f MeV is %.4f, expected %.4f" % (name, (k + 0.5) * EBIN, np.cumsum(v)[k], np.cumsum(w)[k]), case)
    big = w > 1e-3 * w.max()
    q = np.abs(v[big] / w[big] - 1)
    if q.max() > 0.06:
        k = int(np.nonzero(big)[0][q.argmax()])
        res.fail(sig, "%s: bin at %.2f MeV has %.4g, expected %.4g" % (name, k * EBIN, v[k], w[k]), case)


def one(res, case, d, S, q):
    z, a = q["z"], q["a"]
    if q["kind"] == "exc":
        f = d.cmd("exc %d %d %r" % (z, a, q["e"])).split()
        v = np.array([float(x) for x in f[2:]])
        w = exci.spectrum(z, a, q["e"])
        name = "pre-equilibrium neutrons of n+(%d,%d) at %.4f MeV" % (z, a, q["e"])
        res.case(key=("exc", z, a, q["e"]), nontrivial=int((w > 0).sum()) > 10,
                 sample="%s: mean %.3f MeV" % (name, (w * np.arange(len(w))).sum() * EBIN))
        res.add("preequilibrium_spectra")
        if (w > 0).sum() > 3:
            compare(res, "preeq-spectrum", case, name, v, w)
        return
    c0, k0, u = q["c0"], q["k0"], q["u"]
    f = d.cmd("evap %d %d %r %d %d" % (z, a, u, c0, k0)).split()
    n = int(f[1])
    if n < 0:
        res.case(key=("closed", z, a, u, c0), nontrivial=False)
        return
    top = u
    for i in range(c0 + 1):
        top -= sn_decay(z, a - i)
    if top <= 0.2:
        return
    t = evap(z, a - c0 - 1, S, k0, top, case["scheme"])
    if t is None:
        return
    ex, w, o = t
    lv = ld.levels_of(S, z, a - c0 - 1)
    if lv[-1]["E"] >= top - 0.1 or w.sum() <= 0 or (w > 0).sum() < 4:
        return
    v = np.array([float(x) for x in f[3::2]])
    e = np.array([float(x) for x in f[2::2]])
    name = "neutrons evaporated from (%d,%d) at %.4f MeV" % (z, a - c0, ex[k0] + sn_decay(z, a - c0))
    res.case(key=("evap", z, a, u, c0, k0, case["scheme"]), nontrivial=(w > 0).sum() > 10,
             sample="%s: mean %.3f MeV" % (name, (norm(w) * np.arange(len(w))).sum() * EBIN - k0 * EBIN))
    res.add("evaporation_spectra")
    if len(v) == len(ex) and np.abs(np.where(e > 0, e - (ex[k0] - ex), 0)).max() > 1e-4:
        res.fail("evap-energies", "%s: bin energies differ from excitation differences" % name, case)
    compare(res, "evap-spectrum", case, name, v, norm(w))


def run(case, d=None):
    res = Result()
    if case["kind"] == "events":
        return run_events(case)
    if case["kind"] == "api" or not intern.ready("i_pfn"):
        return intern.api_fallback(0, "C27")
    own = d is None
    S = scheme(case["scheme"])
    try:
        if own:
            d = drv.Driver(S, exe="i_pfn")
        for q in case["seq"]:
            one(res, case, d, S, q)
    except drv.Died as ex:
        if ex.rc == "timeout":
            res.add("timeout")
        else:
            res.fail("died", "no spectrum: rc %s %s" % (ex.rc, ex.err[-200:]), case)
    finally:
        if own and d is not None:
            d.close()
    return res


def spectra(t):
    res = Result()
    if not intern.ready("i_pfn"):
        return intern.api_fallback(t["id"], "C27")
    r = rng_for("C27", t["seed"], t["id"])
    d, sc = None, 0
    nuc = [(iso // 1000, iso % 1000) for iso in gen.NF]
    nuc = nuc if t["id"] % 2 else r.sample(TARGETS, 5)
    try:
        for i in range(t["n"]):
            if i % 12 == 0:
                if d:
                    d.close()
                sc = r.choice([0, r.randint(1, 10 ** 6)])
                d = drv.Driver(scheme(sc), exe="i_pfn")
            seq = []
            for _ in range(r.randint(1, 3)):
                z, a = r.choice(nuc)
                if r.random() < 0.4:
                    seq.append(dict(kind="exc", z=z, a=a, e=gen.round_e(r.uniform(0.3, 20.0))))
                else:
                    c0 = r.choice([0, 0, 1, 2])
                    seq.append(dict(kind="evap", z=z, a=a + 1, u=sn_decay(z, a + 1) + gen.round_e(r.uniform(0.3, 20.0)), c0=c0, k0=r.choice([0, r.randint(0, 60)]) if c0 else 0))
            c = dict(kind="spectra", scheme=sc, seq=seq)
            res.merge(run(c, d))
            if d.p.poll() is not None:
                d.close()
                d = drv.Driver(scheme(sc), exe="i_pfn")
    finally:
        if d:
            d.close()
    return res


def exc_spectrum(z, at, e):
    if (z, at, e) not in _EX:
        if len(_EX) > 300:
            _EX.clear()
        _EX[z, at, e] = exci.spectrum(z, at, e)
    return _EX[z, at, e]


def quantile(w, lo, hi, k, frac):
    """probability of a value below bin k + frac, spectrum w limited to bins lo..hi-1"""
    s = w[lo:hi].sum()
    return (w[lo:min(k, hi)].sum() + (w[k] * frac if lo <= k < hi else 0.0)) / s


def pit(ev, iso, e, r, out, bad):
    """position of every pre-fission neutron within its predicted spectrum"""
    n = ev.npre
    z, a = gen.compound(iso, e)
    bar = mcf.tables()[iso][1]
    top = [e + sn_tab(z, a)]
    for i in range(n):
        top.append(top[-1] - sn_decay(z, a - i))
    if top[n] - bar[n] < 0:
        return
    # energies in the frame of the emitting nucleus
    pc = np.array([0.0, 0.0, math.sqrt(2 * MN * e)])
    eps = []
    for k, q in enumerate(ev.pre):
        vl = math.sqrt(2 * q[0] / MN) * np.array(q[1:4])
        vc = vl - pc / mass_tab(z, a - k)
        pc = pc - MN * vl
        eps.append(0.5 * MN * float(vc @ vc))
    kf = int(round(eps[0] / EBIN))
    kmax = int(math.ceil((top[n] - bar[n]) / EBIN))
    t = evap(z, a - 1, {}, 0, top[1], 0)
    if t is None:
        return
    w = t[1]
    f = ang.fraction(iso, e)
    x = exc_spectrum(z, a - 1, e)
    x = np.pad(x, (0, max(0, len(w) - len(x))))
    if kmax > 2 and w[:kmax].sum() > 0 and x[:kmax].sum() > 0:
        fr = min(1.0, max(0.0, eps[0] / EBIN - kf + 0.5))
        u = (1 - f) * quantile(w, 0, kmax, kf, fr) + f * quantile(x, 0, kmax, kf, fr)
        out.append(("first", n, e, eps[0], u))
    ks = kf
    for i in range(1, n):
        em = top[n] - EBIN * ks - bar[n]
        if em < EBIN * 1.5:      # no room: (almost) at rest
            if eps[i] > 0.12:
                bad("late-energy", "pre-fission neutron %d has %.3f MeV where %.3f is available above the barrier" % (i + 1, eps[i], em))
            break
        kn = ks + int(round(eps[i] / EBIN))
        t = evap(z, a - i - 1, {}, ks, top[i + 1], 0)
        if t is None:
            return
        hi = ks + int(math.floor(em / EBIN)) + 1
        if ks >= len(t[0]) or t[1][ks:hi].sum() <= 0:
            return
        fr = min(1.0, max(0.0, eps[i] / EBIN - (kn - ks) + 0.5))
        out.append(("later", n, e, eps[i], quantile(t[1], ks, hi, kn, fr)))
        ks = kn


def ks_p(u):
    from scipy import stats
    return stats.kstest(u, "uniform")


def judge(res, case, where, name, u, n0=150):
    u = np.sort(np.array(u))
    n = len(u)
    if n < n0:
        return
    res.add("statistical_tests")
    i = np.arange(n)
    D = max((u - i / n).max(), ((i + 1) / n - u).max())
    if D > 0.012 + 3.4 / math.sqrt(n):
        res.fail("energy-law", "%s: energies of %s depart from the predicted spectra: %d values, largest difference of the cumulated shares %.3f" % (where, name, n, D), case)
    z = (u.mean() - 0.5) * math.sqrt(12 * n)
    if abs(z) > 6.3 + 0.006 * math.sqrt(12 * n):
        res.fail("energy-law", "%s: %s are too %s: mean position within the predicted spectra %.4f (%d values, %.1f sigma)" % (where, name, "hard" if z > 0 else "soft", u.mean(), n, z), case)


def run_events(task):
    res = Result()
    case = dict(task)
    r = rng_for("pfn", task["seed"])
    iso = task["iso"]
    out = []
    es = [gen.round_e(r.uniform(*task["band"])) for _ in range(task["ne"])]
    with drv.Driver({}) as d:
        for i in range(task["n"]):
            e = es[i % len(es)]
            try:
                ev = d.event(iso, e, r.randint(1, 2 ** 31 - 2), 0.0, -1.0)
            except drv.Died as x:
                res.fail("no-event", str(x)[:200], case)
                return res
            res.case(key=(iso, e, task["seed"], i), nontrivial=ev.npre > 0,
                     sample="iso=%d E=%g: pre-fission neutrons of %s MeV" % (iso, e, ["%.3f" % q[0] for q in ev.pre]) if i < 3 else None)
            if ev.npre:
                pit(ev, iso, e, r, out, lambda s, m: res.fail(s, "%s (iso=%d E=%g)" % (m, iso, e), case))
    res.add("prefission_neutrons", len(out))
    where = "iso=%d, %g to %g MeV" % ((iso,) + tuple(task["band"]))
    judge(res, case, where, "first pre-fission neutrons", [o[4] for o in out if o[0] == "first"])
    judge(res, case, where, "later pre-fission neutrons", [o[4] for o in out if o[0] == "later"])
    for n in (1, 2, 3):
        judge(res, case, where, "first of %d pre-fission neutrons" % n, [o[4] for o in out if o[0] == "first" and o[1] == n])
    return res


def task_fn(t):
    return run_events(t) if t["kind"] == "events" else spectra(t)


def tasks(tier, seed):
    th = tier == "thorough"
    r = rng_for("C27t", seed)
    ts = []
    for rep in range(8 if th else 1):
        for iso in gen.NF:
            for band in ((7.0, 12.5), (12.5, 20.0)):
                ts.append(dict(kind="events", stat=True, iso=iso, band=band, ne=12, n=450, seed=r.randint(0, 10 ** 9)))
    for i in range(64 if th else 16):
        ts.append(dict(kind="spectra", id=i, seed=seed, n=60 if th else 25))
    return ts


def shrink(c):
    if c["kind"] != "spectra":
        return
    s = c["seq"]
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(c, seq=s[:i] + s[i + 1:])
    if c["scheme"]:
        yield dict(c, scheme=0)
