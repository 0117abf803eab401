"""Statistical comparison of sampled fragments with the laws in ylaw."""
import math, os
import numpy as np
from scipy import stats
from scipy.special import ndtr
import drv, gen, ylaw
from core import Result, rng_for
from phys import *

PV = 1e-9
ZMAX = 6.2


class Acc:
    def __init__(self):
        self.hist, self.z, self.pit = {}, {}, {}

    def h(self, key, obs, exp):
        o = self.hist.get(key)
        if o is None:
            self.hist[key] = [np.array(obs, float), np.array(exp, float)]
        else:
            o[0] += obs
            o[1] += exp

    def zz(self, key, diff, var, n):
        o = self.z.setdefault(key, [0.0, 0.0, 0])
        o[0] += diff
        o[1] += var
        o[2] += n

    def u(self, key, arr):
        if len(arr):
            self.pit.setdefault(key, []).append(arr)

    def judge(self, res, case, want):
        """want: set of first letters judged"""
        nt = 0
        pooled = {}
        for key, (o, e) in sorted(self.hist.items(), key=lambda kv: str(kv[0])):
            if key[0] not in want:
                continue
            c2, df = chi2(o, e)
            if c2 is None:
                continue
            nt += 1
            q = pooled.setdefault(key[:2], [0.0, 0])
            q[0] += c2
            q[1] += df
            p = stats.chi2.sf(c2, df)
            if p < PV:
                i = int(np.argmax((o - e) ** 2 / np.maximum(e, 1)))
                res.fail("%s-law" % key[0], "%s %s: chi2=%.1f for %d degrees of freedom, p=%.1e (value %d: %d observed, %.1f expected)" % (
                    NAMES[key[0]], key[1:], c2, df, p, i, o[i], e[i]), case)
        for key, (c2, df) in pooled.items():
            p = stats.chi2.sf(c2, df)
            nt += 1
            if p < PV:
                res.fail("%s-law" % key[0], "%s pooled over %s: chi2=%.1f for %d degrees of freedom, p=%.1e" % (NAMES[key[0]], key[1:], c2, df, p), case)
        for key, (d, v, n) in sorted(self.z.items(), key=lambda kv: str(kv[0])):
            if key[0] not in want or n < 200 or v < 25 * 1e-12:
                continue
            nt += 1
            z = d / math.sqrt(v) if v > 0 else 0
            if abs(z) > ZMAX:
                res.fail("%s-law" % key[0], "%s %s: average off by %.5g (%.1f standard deviations, %d values)" % (NAMES[key[0]], key[1:], d / n, z, n), case)
        for key, arrs in sorted(self.pit.items(), key=lambda kv: str(kv[0])):
            if key[0] not in want:
                continue
            u = np.concatenate(arrs)
            if len(u) < 100:
                continue
            nt += 1
            zm = (u.mean() - 0.5) * math.sqrt(12 * len(u))
            zv = (((u - 0.5) ** 2).mean() - 1 / 12.) / math.sqrt(1 / 180. / len(u))
            p = stats.kstest(u, "uniform").pvalue if len(u) >= 200 else 1.0
            if abs(zm) > ZMAX or abs(zv) > ZMAX or p < PV:
                res.fail("%s-law" % key[0], "%s %s: quantiles not uniform: mean %.4f (%.1f sigma), spread %.4f instead of 0.0833 (%.1f sigma), KS p=%.1e, %d values" % (
                    NAMES[key[0]], key[1:], u.mean(), zm, ((u - 0.5) ** 2).mean(), zv, p, len(u)), case)
        res.add("statistical_tests", nt)


NAMES = {"A": "fragment masses", "Z": "fragment charges", "T": "total kinetic energy", "J": "fragment spins", "P": "fragment parities"}


def chi2(o, e):
    """chi-square with neighbouring values merged until 8 are expected; None when fewer than 2 classes"""
    O, E = [], []
    a = b = 0.0
    for x, y in zip(o, e):
        a += x
        b += y
        if b >= 8:
            O.append(a)
            E.append(b)
            a = b = 0.0
    if E:
        O[-1] += a
        E[-1] += b
    if len(E) < 2:
        return None, 0
    O, E = np.array(O), np.array(E)
    return float(((O - E) ** 2 / E).sum()), len(E) - 1


class Sys:
    """laws of one reaction at one energy, cached per fissioning nucleus and equivalent energy"""
    def __init__(self, iso, e, variant=0, pool=None):
        self.iso, self.e, self.pool = iso, e, pool
        self.z, self.a = gen.compound(iso, e)
        self.sf = e == 0.0
        self.pe = 0.0 if self.sf else e + sn_tab(self.z, self.a)
        self.dz = ylaw.DZ.get(iso, 3)
        self.zp = ylaw.charge_law(self.z, self.a, self.pe, self.dz)
        self.q = ylaw._wahl_params(self.z, self.a, self.pe)
        self.variant = variant
        self.cache = {}

    def charge(self, ac, al):
        """P(Zl | Al) of the light fragment: array over Z"""
        k = ("c", ac, al)
        if k not in self.cache:
            p = np.zeros(self.z + 30)
            ah = ac - al
            z0, q = self.zp[al]
            for i, x in enumerate(q):
                p[z0 + i] += x
            if ah != al:
                z0, q = self.zp[ah]
                for i, x in enumerate(q):
                    zl = self.z - z0 - i
                    if zl >= 0:
                        p[zl] += x
            self.cache[k] = p / p.sum()
        return self.cache[k]

    def law(self, ac, e):
        k = (ac, round(e, 2)) if ac != self.a else (ac, "first")
        if k not in self.cache:
            ee = (0.0 if self.sf else self.e) if ac == self.a else round(e, 2)
            y = ylaw.mass_law(self.z, self.a, ac, ee, self.sf, self.variant)
            av, sd = ylaw.tke_law(self.z, self.a, ac, ee, self.sf, y)
            self.cache[k] = (ylaw.light_mass(y, ac), av, sd, ee)
        return self.cache[k]


def add(acc, S, arr, tag, r):
    """arr columns: Zl Al KEl Ul Jl Pl Zh Ah KEh Uh Jh Ph  (all with the same compound nucleus and, for
    yields runs, the same equivalent energy)"""
    Zl, Al, Zh, Ah = (arr[:, i].astype(int) for i in (0, 1, 6, 7))
    tke = arr[:, 2] + arr[:, 8]
    txe = arr[:, 3] + arr[:, 9]
    n = len(arr)
    ac = int(Al[0] + Ah[0])
    npre = S.a - ac
    if S.sf:
        eeff = np.zeros(n)
    else:
        q = me_tab(S.z, ac) - np.array([me_tab(a, b) for a, b in zip(Zl, Al)]) - np.array([me_tab(a, b) for a, b in zip(Zh, Ah)])
        eeff = tke + txe - q - sn_tab(S.z, ac)
    groups = [np.arange(n)]
    if not S.sf and npre and tag[0] == "ev":
        groups = [np.array([i]) for i in range(n)]
    iso = S.iso
    for g in groups:
        e = float(np.median(eeff[g]))
        pl, av, sd, ee = S.law(ac, e)
        m = len(g)
        al, ah = Al[g], Ah[g]
        acc.h(("A", (iso, npre), tag), np.bincount(al, minlength=len(pl))[:len(pl)], m * pl)
        x = np.arange(len(pl))
        mu = (pl * x).sum()
        var = (pl * (x - mu) ** 2).sum()
        k4 = (pl * (x - mu) ** 4).sum()
        for t in (tag, "all"):
            acc.zz(("A", iso, npre, t, "mean"), (al - mu).sum(), m * var, m)
            acc.zz(("A", iso, npre, t, "width"), ((al - mu) ** 2 - var).sum(), m * (k4 - var ** 2), m)
            s = pl[ac // 2 - 6:].sum()
            acc.zz(("A", iso, npre, t, "symmetric fraction"), (al >= ac // 2 - 6).sum() - m * s, m * s * (1 - s), m)
            s = pl[:83].sum()
            acc.zz(("A", iso, npre, t, "far asymmetric fraction"), (al < 83).sum() - m * s, m * s * (1 - s), m)
        mt, st = av[ah], sd[ah]
        u = ndtr((tke[g] - mt) / st) / ndtr((tke[g] + txe[g] - mt) / st)
        u = np.clip(u, 0, 1)
        acc.u(("T", iso, npre, tag), u)
        acc.u(("T", iso, "all"), u)
        if S.pool:
            acc.u(("T", "pool", S.pool), u)
        for b in set(ah.tolist()) if tag[0] != "ev" else []:
            acc.u(("T", iso, npre, "heavy mass %d" % b), u[ah == b])
    # charges: the law does not depend on the equivalent energy
    for a in np.unique(Al):
        sel = Al == a
        p = S.charge(ac, int(a))
        m = int(sel.sum())
        z = Zl[sel]
        acc.h(("Z", (iso, "A=%d" % a), S.e, ac), np.bincount(z, minlength=len(p))[:len(p)], m * p)
        x = np.arange(len(p))
        mu = (p * x).sum()
        v = (p * (x - mu) ** 2).sum()
        k4 = (p * (x - mu) ** 4).sum()
        ev = p[::2].sum()
        rl, rh = ylaw.region(S.q, float(a)), ylaw.region(S.q, float(ac - a))
        kinds = ((tag, rl), ("light " + rl,), ("heavy " + rh,), (rl, "odd A" if a % 2 else "even A"))
        for pre, ks in (((iso, npre), kinds), (("pool", S.pool), kinds[1:] if S.pool else ())):
            for t in ks:
                acc.zz(("Z",) + pre + (t, "mean"), (z - mu).sum(), m * v, m)
                acc.zz(("Z",) + pre + (t, "width"), ((z - mu) ** 2 - v).sum(), m * (k4 - v * v), m)
                acc.zz(("Z",) + pre + (t, "even fraction"), (z % 2 == 0).sum() - m * ev, m * ev * (1 - ev), m)
    # spins
    for side, (Z, A, U, J, P) in enumerate(((Zl, Al, arr[:, 3], arr[:, 4], arr[:, 5]), (Zh, Ah, arr[:, 9], arr[:, 10], arr[:, 11]))):
        nm = ("light", "heavy")[side]
        al_ = np.array([ylaw.alpha(S.z, ac, e if npre else (0.0 if S.sf else S.e), S.sf) for e in (eeff if npre else eeff[:1])])
        if len(al_) == 1:
            al_ = np.full(n, al_[0])
        b2 = np.empty(n)
        za = 1000 * Z + A
        for k in np.unique(za):
            s = za == k
            b2[s] = ylaw.spin_b2(k // 1000, k % 1000, U[s], 1.0) * al_[s]
        for par in (0, 1):
            s = np.nonzero(A % 2 == par)[0]
            if not len(s):
                continue
            c = ylaw.spin_cdf(par, b2[s])
            j = np.floor(J[s] + 1e-9).astype(int)
            bad = (np.abs(J[s] - (j + 0.5 * par)) > 1e-9) | (j > 49) | (j < 0)
            j = np.clip(j, 0, 49)
            hi = c[np.arange(len(s)), j]
            lo = np.where(j > 0, c[np.arange(len(s)), np.maximum(j - 1, 0)], 0.0)
            u = lo + (hi - lo) * r.random(len(s))
            u[bad] = 0.0
            acc.u(("J", iso, tag, nm), u)
            acc.u(("J", iso, nm, "odd mass" if par else "even mass"), u)
            acc.u(("J", iso, "pre-fission neutrons %d" % npre), u)
            us = U[s]
            if S.pool:
                acc.u(("J", "pool", S.pool), u)
                acc.u(("J", "pool", S.pool, nm), u)
                acc.u(("J", "pool", S.pool, "odd mass" if par else "even mass"), u)
                b = np.array([ylaw.data().beta2.get(int(k), 0.2) for k in za[s]])
                for bn, w in (("oblate", b < -0.02), ("spherical", abs(b) <= 0.02), ("deformed", (b > 0.02) & (b <= 0.25)), ("strongly deformed", b > 0.25)):
                    acc.u(("J", "pool", S.pool, bn), u[w])
            for lo_, hi_ in ((0, 4), (4, 10), (10, 18), (18, 30), (30, 100)):
                w = (us >= lo_) & (us < hi_)
                acc.u(("J", iso, "U in %d-%d" % (lo_, hi_)), u[w])
            zz = za[s]
            if tag[0] != "ev":
                for k in np.unique(zz):
                    acc.u(("J", iso, "nucleus %d" % k), u[zz == k])
        acc.zz(("P", iso, nm), (P > 0).sum() - n / 2., n / 4., n)
        acc.zz(("P", iso, tag, nm), (P > 0).sum() - n / 2., n / 4., n)
        sJ = (P > 0) & (J < 6)
        acc.zz(("P", iso, "low spin", nm), sJ.sum() - (J < 6).sum() / 2., (J < 6).sum() / 4., int((J < 6).sum()))
    acc.zz(("P", iso, "equal parities"), (arr[:, 5] == arr[:, 11]).sum() - n / 2., n / 4., n)


def check_share(S, arr, res, case, limit):
    for row in arr[:limit]:
        zl, al, zh, ah = int(row[0]), int(row[1]), int(row[6]), int(row[7])
        txe = row[3] + row[9]
        its = ylaw.share(S.iso, zl, al, zh, ah, txe)
        tol = 2e-3 + 2e-5 * txe
        if min(abs(row[3] - x) for x in its[-3:]) > tol:
            res.fail("sharing", "iso=%d E=%g: TXE=%.4f MeV of (%d,%d)+(%d,%d) shared %.4f + %.4f, temperature ratio gives %.4f for the light fragment" % (
                S.iso, S.e, txe, zl, al, zh, ah, row[3], row[9], its[-2]), case)
    res.add("sharings", len(arr[:limit]))


def yields_array(d, iso, e, n, seed):
    p = os.path.join(d.cwd, "y.out")
    if os.path.exists(p):
        os.unlink(p)
    d.cmd("yields %d %r %d %d y.out" % (iso, e, n, seed))
    a = np.array(open(p).read().split(), dtype=float)
    if len(a) != 18 * n:
        raise ValueError("yields file has %d numbers, expected %d" % (len(a), 18 * n))
    return a.reshape(n, 18)[:, [0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 14]]


def run_task(task, want, share):
    """the documented law; should masses or kinetic energies disagree, the law with the width of the symmetric mode as
    the code has it (known finding) decides whether anything else is wrong"""
    if "variant" in task:
        return _run_task(task, want, share)
    res = _run_task(dict(task, variant=1), want, share)
    if any(f["sig"] in ("A-law", "T-law") for f in res.fails):
        r0 = _run_task(dict(task, variant=0), want, share)
        if any(f["sig"] in ("A-law", "T-law") for f in r0.fails):
            res = r0
        else:
            m = next(f["msg"] for f in res.fails if f["sig"] in ("A-law", "T-law"))
            res.fails = [f for f in res.fails if f["sig"] not in ("A-law", "T-law")]
            res.fail("symmetric-width-slope", m + "; agrees when the width of the symmetric mode takes the slope of the first asymmetric mode", task)
    for f in res.fails:
        f["case"] = task
    return res


def _run_task(task, want, share):
    res = Result()
    acc = Acc()
    r = np.random.default_rng(task["seed"])
    rr = rng_for("ystat", task["seed"])
    iso = task.get("iso")
    case = dict(task)
    with drv.Driver({}) as d:
        for iso, e in task["reactions"] if task.get("pool") else [(iso, e) for e in task["energies"]]:
            S = Sys(iso, e, task.get("variant", 0), task.get("pool"))
            if task.get("events"):
                rows = []
                for _ in range(task["n"]):
                    try:
                        ev = d.event(iso, e, rr.randint(1, 2 ** 31 - 2), 0.0, -1.0)
                    except drv.Died as x:
                        res.fail("no-event", str(x)[:300], case)
                        return res
                    f, g = ev.fr
                    rows.append((f.Z, f.A, f.KE, f.U, f.J, f.P, g.Z, g.A, g.KE, g.U, g.J, g.P))
                runs = [np.array(rows, float)]
            else:
                runs = []
                seeds = [rr.randint(1, 2 ** 31 - 2) for _ in range(task.get("reps", 1))]
                try:
                    for s in seeds:
                        runs.append(yields_array(d, iso, e, task["n"], s))
                except (drv.Died, ValueError, OSError) as x:
                    res.fail("no-yields", "%s E=%r: %s" % (iso, e, str(x)[:300]), case)
                    return res
            for i, arr in enumerate(runs):
                z, a = S.z, S.a
                if not np.all(arr[:, 0] + arr[:, 6] == z):
                    res.fail("Z-law", "charges do not add up (iso=%d E=%g)" % (iso, e), case)
                    continue
                for c in np.unique(arr[:, 1] + arr[:, 7]):
                    sub = arr[arr[:, 1] + arr[:, 7] == c]
                    if not (S.a - 4 <= c <= S.a):
                        res.fail("A-law", "masses add up to %d (iso=%d E=%g)" % (c, iso, e), case)
                        continue
                    try:
                        if task.get("events"):
                            add(acc, S, sub, ("ev", e), r)
                        else:
                            split_add(acc, S, sub, ("yields", e, i), r)
                    except (KeyError, IndexError, ValueError) as x:
                        res.fail("%s-law" % want[0], "sampled fragments outside the range of the laws: iso=%d E=%g: %r" % (iso, e, x), case)
                if share:
                    check_share(S, arr, res, case, task.get("share", 400))
                res.n += len(arr)
                for k in range(0, len(arr), max(1, len(arr) // 50)):
                    res.nontrivial.add("%d/%r/%d/%d" % (iso, e, i, k))
                if len(res.samples) < 2:
                    res.samples.append("iso=%d E=%g %s run %d: %d fragment pairs, e.g. (%d,%d)+(%d,%d) TKE=%.2f TXE=%.2f J=%.1f,%.1f" % (
                        iso, e, "events" if task.get("events") else "yields", i, len(arr), arr[0, 0], arr[0, 1], arr[0, 6], arr[0, 7], arr[0, 2] + arr[0, 8], arr[0, 3] + arr[0, 9], arr[0, 4], arr[0, 10]))
                res.add("fission_chance_%d" % (S.a - int(arr[0, 1] + arr[0, 7]) + 1), len(arr))
    acc.judge(res, case, want)
    return res


def split_add(acc, S, sub, tag, r):
    """yields runs share one equivalent energy; if a run mixes several, each event is its own group"""
    if S.sf or S.a == int(sub[0, 1] + sub[0, 7]):
        return add(acc, S, sub, tag, r)
    ac = int(sub[0, 1] + sub[0, 7])
    ee = np.array([row[2] + row[3] + row[8] + row[9] - me_tab(S.z, ac) + me_tab(int(row[0]), int(row[1])) + me_tab(int(row[6]), int(row[7])) - sn_tab(S.z, ac) for row in sub])
    if ee.max() - ee.min() < 0.02:
        return add(acc, S, sub, tag, r)
    return add(acc, S, sub, ("ev",) + tag, r)


def shrink(case):
    if case.get("pool"):
        return
    es = case["energies"]
    if len(es) > 1:
        for e in es:
            yield dict(case, energies=[e])
        yield dict(case, energies=es[:len(es) // 2])
        yield dict(case, energies=es[len(es) // 2:])


def make_tasks(tier, seed, tag):
    th = tier == "thorough"
    r = rng_for(tag, "ystat", seed)
    ts = []
    k = 6 if th else 1
    for rep in range(k):
        for iso in gen.SF:
            ts.append(dict(iso=iso, energies=[0.0], n=20000, reps=1, seed=r.randint(0, 10 ** 9)))
        for iso in gen.NF:
            sn = sn_tab(*gen.compound(iso, 1.0))
            lo = max(0.3, 8.0 - sn)
            es = [r.choice([2.53e-8, 1e-9, r.uniform(1e-6, 0.2)]), r.uniform(0.05, lo), r.uniform(lo, 3.0), r.uniform(3.0, 5.5)]
            ts.append(dict(iso=iso, energies=[gen.round_e(e) for e in es], n=8000, reps=1, seed=r.randint(0, 10 ** 9)))
            es = [r.uniform(6.0, 8.5), r.uniform(8.5, 12.0), r.uniform(12.0, 20.0 - sn + 6)]
            ts.append(dict(iso=iso, energies=[gen.round_e(min(20.0, e)) for e in es], n=2500, reps=3, seed=r.randint(0, 10 ** 9)))
            es = [r.uniform(max(13.5, 20.0 - sn), 17.0), r.uniform(17.0, 20.0)]
            ts.append(dict(iso=iso, energies=[gen.round_e(min(20.0, e)) for e in es], n=2000, reps=3, seed=r.randint(0, 10 ** 9)))
        # many reactions together: differences too small to be seen in one of them
        m = 16000 if th else 8000
        for nm, rx in (("spontaneous", [(iso, 0.0) for iso in gen.SF]),
                       ("below 1 MeV", [(iso, gen.round_e(r.uniform(0.35, 1.0))) for iso in gen.NF]),
                       ("first chance", [(iso, gen.round_e(r.uniform(1.0, 4.8))) for iso in gen.NF])):
            ts.append(dict(pool=nm, reactions=rx, energies=[1.0], n=m, seed=r.randint(0, 10 ** 9), share=40))
    for i in range(60 if th else 13):
        iso = (gen.SF + gen.NF)[i % 13]
        e = 0.0 if iso in gen.SF else gen.round_e(r.uniform(0.1, 20.0))
        ts.append(dict(events=True, iso=iso, energies=[e], n=1500 if th else 300, share=300, seed=r.randint(0, 10 ** 9)))
    r.shuffle(ts)
    ts.sort(key=lambda t: -(t["n"] * (len(t["energies"]) + 8 * bool(t.get("pool"))) * t.get("reps", 1)) * (40 if t.get("events") else 10 if min(t["energies"]) > 13 else 2 if max(t["energies"]) > 12 else 1))
    return ts


class Task:
    def __init__(self, want, share):
        self.want, self.share = want, share

    def __call__(self, t):
        return run_task(t, self.want, self.share)
