"""Angular laws: fragments, fragment neutrons, photons, pre-fission neutrons."""
import math, os
import numpy as np
from scipy import stats
import drv, gen, mcf
from core import Result, rng_for
from phys import *

Z = 6.3
_A = None


def anisotropy(iso, e):
    """(coefficient, coefficient of the neighbouring grid energies) at incident energy e"""
    global _A
    if _A is None:
        ls = [l.split() for l in open(os.path.join(drv.DATA, "anisotropy.dat")) if l.strip() and l[0] != "#"]
        e0, e1, st = (float(x) for x in ls[0])
        _A = (e0, st, {int(l[0]): [float(x) for x in l[1:]] for l in ls[1:]})
    e0, st, t = _A
    if e == 0.0 or iso not in t:
        return 1.0
    v = t[iso]
    return v[min(len(v) - 1, int(math.floor((e - e0) / st + 0.5)))]


def cdf_frag(mu, a):
    b = a - 1.0
    return (mu + b * mu ** 3 / 3 + 1 + b / 3) / (2 + 2 * b / 3)


def uniform(res, case, name, x, sig, margin=0.0):
    """x should be uniform on [-1,1]"""
    x = np.asarray(x)
    n = len(x)
    if n < 150:
        return
    res.add("statistical_tests")
    zm = (abs(x.mean()) - margin) * math.sqrt(3 * n)
    zv = (abs((x * x).mean() - 1 / 3.) - margin) / math.sqrt(4 / 45. / n)
    D = stats.kstest((x + 1) / 2, "uniform").statistic - margin
    if zm > Z or zv > Z or D > math.sqrt(11.0 / n):
        res.fail(sig, "%s: not uniform: mean %.4f, mean square %.4f (1/3), KS distance %.4f for %d values" % (name, x.mean(), (x * x).mean(), D + margin, n), case)


def phi_uniform(res, case, name, x, y, sig, margin=0.0):
    uniform(res, case, name + " (azimuth)", np.arctan2(y, x) / math.pi, sig, margin)


def run_frag(task):
    res = Result()
    case = dict(task)
    iso = task["iso"]
    r = rng_for("angf", task["seed"])
    pool = []
    with drv.Driver({}) as d:
        for e in task["energies"]:
            p = os.path.join(d.cwd, "y.out")
            s = r.randint(1, 2 ** 31 - 2)
            try:
                d.cmd("yields %d %r %d %d y.out" % (iso, e, task["n"], s))
                v = np.array(open(p).read().split(), dtype=float).reshape(task["n"], 18)
            except (drv.Died, OSError, ValueError) as x:
                res.fail("no-yields", "iso=%d E=%g seed=%d: %s" % (iso, e, s, str(x)[:200]), case)
                return res
            os.unlink(p)
            pl, ph = v[:, 6:9], v[:, 15:18]
            al, ah = v[:, 1], v[:, 10]
            pc = pl + ph
            q = pl - (al / (al + ah))[:, None] * pc
            q /= np.linalg.norm(q, axis=1)[:, None]
            mu = q[:, 2]
            a = anisotropy(iso, e)
            n = len(mu)
            res.n += n
            for k in range(0, n, max(1, n // 50)):
                res.nontrivial.add("%d/%r/%d" % (iso, e, k))
            if len(res.samples) < 2:
                res.samples.append("iso=%d E=%g: %d light fragments, anisotropy %.3f, <cos^2>=%.4f" % (iso, e, n, a, (mu * mu).mean()))
            judge_frag(res, case, "iso=%d E=%g" % (iso, e), mu, [a] * 1, q)
            pool.append((mu, a, q))
    if len(pool) > 1:
        u = np.concatenate([2 * cdf_frag(m, a) - 1 for m, a, _ in pool])
        uniform(res, case, "light fragment directions of %d, all energies (quantiles of the tabulated anisotropy)" % iso, u, "fragment-law", 0.006)
        q = np.concatenate([x[2] for x in pool])
        phi_uniform(res, case, "light fragments of %d" % iso, q[:, 0], q[:, 1], "fragment-azimuth", 0.002)
    res.add("fragments", res.n)
    return res


def judge_frag(res, case, name, mu, al, q):
    n = len(mu)
    a = al[0]
    m2 = (1 / 3. + (a - 1) / 5.) / (1 + (a - 1) / 3.)
    s2 = math.sqrt(((1 / 5. + (a - 1) / 7.) / (1 + (a - 1) / 3.) - m2 * m2) / n)
    mar = 0.0 if a == 1.0 else 0.02 * abs(a - 1)
    u = cdf_frag(mu, a)
    D = stats.kstest(u, "uniform").statistic
    res.add("statistical_tests", 2)
    if abs((mu * mu).mean() - m2) > Z * s2 + mar or abs(mu.mean()) > Z * math.sqrt(m2 / n) + mar or D > math.sqrt(11.0 / n) + mar:
        res.fail("fragment-law", "%s: light fragments about the beam axis: <cos>=%.4f (0), <cos^2>=%.4f (%.4f +- %.4f for anisotropy %.3f), KS distance %.4f, %d events" % (
            name, mu.mean(), (mu * mu).mean(), m2, s2, a, D, n), case)
    phi_uniform(res, case, name + " light fragments", q[:, 0], q[:, 1], "fragment-azimuth", 0.002)


def run_part(task):
    res = Result()
    case = dict(task)
    r = rng_for("angp", task["seed"])
    G = {}

    def put(key, v):
        G.setdefault(key, []).append(v)
    pre1 = []
    with drv.Driver({}) as d:
        for i in range(task["n"]):
            iso, e = task["iso"], task["E"] if task["E"] is not None else gen.round_e(r.uniform(8.0, 20.0))
            try:
                ev = d.event(iso, e, r.randint(1, 2 ** 31 - 2), 0.0, -1.0)
            except drv.Died as x:
                res.fail("no-event", str(x)[:200], case)
                return res
            res.case(key=(iso, e, task["seed"], i), nontrivial=ev.nn + ev.ng > 0,
                     sample="iso=%d E=%g: %d neutrons, %d photons, %d pre-fission" % (iso, e, ev.nn, ev.ng, ev.npre) if i == 0 else None)
            z, a = gen.compound(iso, e)
            pc = np.array([0.0, 0.0, math.sqrt(2 * MN * e)])
            for k, q in enumerate(ev.pre):
                vl = math.sqrt(2 * q[0] / MN) * np.array(q[1:4])
                vc = vl - pc / mass_tab(z, a - k)
                pc = pc - MN * vl
                s = np.linalg.norm(vc)
                if s <= 1e-4:         # almost at rest: direction undefined to printed precision
                    continue
                vc = vc / s
                put(("pre-fission neutrons", "azimuth"), (vc[0], vc[1]))
                if k:
                    for ax in range(3):
                        put(("pre-fission neutrons after the first", ax), vc[ax])
                else:
                    for ax in range(2):
                        pass
                    pre1.append((vc[2], 0.5 * MN * s * s, e))
            for k in range(2):
                f = ev.fr[k]
                fd = np.array(f.pre)
                fd = fd / np.linalg.norm(fd)
                prev = None
                for j, x in enumerate(ev.neutrons(k)):
                    c = np.array(x[6:9])
                    nm = "neutrons of the %s fragment" % ("light", "heavy")[k]
                    for ax in range(3):
                        put((nm, ax), c[ax])
                    put((nm + " about the fragment axis", 3), float(np.dot(c, fd)))
                    put((nm, "azimuth"), (c[0], c[1]))
                    if prev is not None:
                        put(("successive neutrons", 3), float(np.dot(c, prev)))
                    put(("neutrons above 1 MeV" if x[5] > 1 else "neutrons below 1 MeV", 2), c[2])
                    put(("first neutron" if j == 0 else "later neutrons", 2), c[2])
                    prev = c
                fp = np.array(f.post)
                fp = fp / np.linalg.norm(fp)
                prev = None
                for j, x in enumerate(ev.photons(k)):
                    c = np.array(x[1:4])
                    nm = "photons of the %s fragment" % ("light", "heavy")[k]
                    for ax in range(3):
                        put((nm, ax), c[ax])
                    put((nm, "azimuth"), (c[0], c[1]))
                    put(("last photon" if j == f.nug - 1 else "photons but the last", 2), c[2])
                    put((nm + " about the fragment axis", 4), float(np.dot(c, fp)))
                    if prev is not None:
                        put(("successive photons", 3), float(np.dot(c, prev)))
                    prev = c
    where = "iso=%d" % task["iso"]
    for (nm, ax), v in sorted(G.items(), key=str):
        v = np.array(v)
        sig = "photon-isotropy" if "photon" in nm else "prefission-isotropy" if "pre-fission" in nm else "neutron-isotropy"
        # lab directions of photons: aberration would be at most 0.05
        m = 0.06 if ax == 4 else (0.004 if "photon" in nm else 0.0)
        if ax == "azimuth":
            phi_uniform(res, case, "%s: %s" % (where, nm), v[:, 0], v[:, 1], sig, m)
        else:
            uniform(res, case, "%s: %s, %s" % (where, nm, ("x", "y", "z", "cosine of the opening angle", "cosine to the fragment")[ax]), v, sig, m)
    judge_pre1(res, case, where, pre1)
    return res


_PS = None


def preeq(ein, eex):
    """p0, p1 of the tabulated pre-equilibrium angular distribution"""
    global _PS
    if _PS is None:
        rows = [[float(x) for x in l.split()] for l in open(os.path.join(drv.DATA, "preeq-scattering-params.dat")) if l.strip() and l[0] != "#"]
        _PS = rows[:8]
    c = [sum(u * eex ** i for i, u in enumerate(row)) for row in _PS]
    return (c[0] + c[1] * ein + c[2] * ein ** 2 + c[3] * ein ** 3, c[4] + c[5] * ein + c[6] * ein ** 2 + c[7] * ein ** 3)


def fraction(iso, e):
    for l in open(os.path.join(drv.DATA, "preeq-params.dat")):
        f = l.split()
        if l[0] != "#" and len(f) == 5 and int(f[0]) == iso:
            a0, e0, s, f0 = (float(x) for x in f[1:])
            return max(0.0, 1 / (1 + math.exp((a0 - e) / e0)) + s * e + f0)
    return 0.0


def judge_pre1(res, case, where, pre1):
    """the first pre-fission neutron: isotropic evaporation or forward-peaked pre-equilibrium emission; a mixture of
    the two laws with any weight up to one must describe it"""
    n = len(pre1)
    if n < 150:
        return
    iso = case["iso"]
    mu = np.array([x[0] for x in pre1])
    z, a = gen.compound(iso, 1.0)
    mpre, lik = [], []
    for m, ec, e in pre1:
        ex = max(0.0, e + sn_tab(z, a) - sn_tab(z, a) - ec)     # excitation of the nucleus left behind
        p0, p1 = preeq(e, ex)
        # density p0 sinh(mu) + p1 on [-1,1]
        nrm = 2 * p1
        if nrm <= 0:
            mpre.append(0.0)
            lik.append(0.5)
            continue
        mpre.append(p0 * 2 * (math.cosh(1) - math.sinh(1)) / nrm)
        lik.append(max(1e-3, (p0 * math.sinh(m) + p1) / nrm))
    mpre = np.array(mpre)
    sd = 1 / math.sqrt(3 * n)
    res.add("first_prefission_neutrons", n)
    # every event is pre-equilibrium at most
    lo, hi = min(0.0, mpre.mean()), max(0.0, mpre.mean())
    f = np.mean([fraction(iso, e) for _, _, e in pre1])
    # in proportion to the tabulated fraction: harder neutrons are more forward, so the bound is loose above
    if mu.mean() < lo - Z * sd or mu.mean() > hi + Z * sd:
        res.fail("prefission-angle", "%s: first pre-fission neutrons about the beam axis: <cos>=%.4f, between %.4f and %.4f allowed (%d values)" % (where, mu.mean(), lo, hi, n), case)
    # the hardest neutrons are pre-equilibrium ones
    hard = np.array([ec > 0.5 * e for _, ec, e in pre1])
    if hard.sum() > 60:
        m, x = mu[hard], mpre[hard]
        res.add("hard_prefission_neutrons", int(hard.sum()))
        if abs(m.mean() - x.mean()) > 0.12 + Z / math.sqrt(3 * hard.sum()):
            res.fail("preeq-angle", "%s: pre-fission neutrons with more than half of the incident energy: <cos>=%.3f, tabulated pre-equilibrium law gives %.3f (%d values)" % (
                where, m.mean(), x.mean(), hard.sum()), case)


def run(task):
    return run_frag(task) if task["kind"] == "frag" else run_part(task)


def make_tasks(tier, seed):
    th = tier == "thorough"
    r = rng_for("C25", seed)
    ts = []
    for rep in range(5 if th else 1):
        for iso in gen.NF:
            for band in ((0.0, 6.0), (6.0, 13.0), (13.0, 20.0)):
                es = []
                for _ in range(3):
                    e = math.floor(r.uniform(*band) * 10) / 10.0 + r.uniform(-0.04, 0.04) + 0.1
                    es.append(gen.round_e(min(20.0, max(0.01, e))))
                ts.append(dict(kind="frag", iso=iso, energies=es, n=8000, seed=r.randint(0, 10 ** 9)))
        for iso in gen.SF:
            ts.append(dict(kind="frag", iso=iso, energies=[0.0], n=20000, seed=r.randint(0, 10 ** 9)))
    for rep in range(8 if th else 1):
        for iso in gen.SF:
            ts.append(dict(kind="part", iso=iso, E=0.0, n=150, seed=r.randint(0, 10 ** 9)))
        for iso in gen.NF:
            ts.append(dict(kind="part", iso=iso, E=gen.round_e(r.uniform(1e-3, 6.0)), n=120, seed=r.randint(0, 10 ** 9)))
            ts.append(dict(kind="part", iso=iso, E=None, n=300, seed=r.randint(0, 10 ** 9)))
    ts.sort(key=lambda t: 0 if t["kind"] == "part" else 1)
    return ts


def shrink(c):
    if c["kind"] == "frag" and len(c["energies"]) > 1:
        for e in c["energies"]:
            yield dict(c, energies=[e])
