"""Delay statistics: one isomer per nucleus, exponential law of the ages and of the survival in a window;
window truncation as a metamorphic relation (same seed, with and without window)."""
import math
import drv, gen, levels as L
from core import Result, rng_for
from oracles import photon_cm, discrete_start, tol_e
from phys import *

PVAL = 1e-9
PASK = 1e-3        # a first sample below this asks for a larger, fresh one, which decides at PVAL
LO, HI = -12.0, 2.0


def scheme(seed, band=None):
    """ground state, one level with a half-life, one level above it decaying to it: all nuclei alike"""
    r = rng_for("tstat", seed)
    e1 = round(r.uniform(0.2, 0.6), 6)
    e2 = round(e1 + r.uniform(0.11, 0.19), 6)
    T1 = float("%.5e" % 10 ** (r.uniform(-10, 1) if band is None else r.uniform(*band)))
    T2 = r.choice([0.0, float("%.5e" % (T1 * 10 ** r.uniform(-0.5, 0.5)))])
    sch = {}
    for z, a in L.nuclei():
        h = 0.5 if a % 2 else 0.0
        sch[1000 * z + a] = [dict(E=0.0, J=h, P=1, T=0.0, g=[]),
                             dict(E=e1, J=h + 2, P=-1, T=T1, g=[(0, 1.0, 0.0)]),
                             dict(E=e2, J=h + 1, P=1, T=T2, g=[(1, 1.0, 0.0)])]
    return sch, e1, e2, T1, T2


def law(task):
    res = _law(task, task["n"], task["seed"], PASK)
    if res.fails and all(f["sig"] in ("delay-law", "window-law") for f in res.fails):
        res.fails = []
        res.merge(_law(task, 6 * task["n"], "%s-again" % task["seed"], PVAL))
    return res


def _law(task, n_events, seed, pval):
    from scipy.stats import kstest, binomtest
    res = Result()
    sch, e1, e2, T1, T2 = scheme(task["sseed"], task.get("band"))
    r = rng_for("tstat-ev", seed)
    tw = -1.0 if task["w"] is None else task["w"] * T1
    t0 = task["t"]
    d1, d2 = [], []
    stopped = passed = 0
    with drv.Driver(sch) as d:
        for i in range(n_events):
            try:
                ev = d.event(task["iso"], task["E"], r.randint(1, 2 ** 31 - 2), t0, tw)
            except drv.Died as x:
                res.fail("no-event", str(x)[:300], task)
                break
            res.case(key=("law", task["sseed"], seed, i), nontrivial=ev.ng > 0)
            for k in range(2):
                f = ev.fr[k]
                if 1000 * f.Z + f.A - f.nu not in sch:
                    continue
                gs = photon_cm(ev, k)
                ages = [x[4] - t0 for x in ev.photons(k)]
                if not gs:
                    continue
                tol = tol_e(f.nu)
                two = len(gs) > 1 and abs(gs[-2] - (e2 - e1)) < tol and abs(gs[-1] - e1) < tol
                end2 = abs(gs[-1] - (e2 - e1)) < tol
                left = f.U - sum(x[5] for x in ev.neutrons(k)) - sum(sn_decay(f.Z, f.A - j) for j in range(f.nu)) - sum(gs)
                if not f.nu and discrete_start(f.U, sch[1000 * f.Z + f.A]) is not None:
                    continue
                if abs(gs[-1] - e1) < tol and abs(left) < 1e-4:
                    if two:
                        d1.append(ages[-1] - ages[-2]); d2.append(ages[-2])
                        passed += T2 == 0.0
                    else:
                        d1.append(ages[-1])
                        passed += 1
                elif tw > 0 and abs(left - e1) < 1e-4 and (T2 == 0.0 or not end2):
                    stopped += 1
    res.add("delays", len(d1))
    res.add("law_events", n_events)
    l2 = math.log(2)
    if tw < 0:
        for nm, x, T in (("level 1", d1, T1),) + ((("level 2", d2, T2),) if T2 > 0 else ()):
            if len(x) >= 20:
                p = kstest([v * l2 / T for v in x], "expon").pvalue
                if p < pval:
                    res.fail("delay-law", "delays of %s with half-life %g s: %d values, mean %.4g s instead of %.4g s, KS p=%.1e" % (
                        nm, T, len(x), sum(x) / len(x), T / l2, p), task)
    else:
        q = 1 - 2 ** (-tw / T1)
        n = passed + stopped
        res.add("window_decisions", n)
        if n:
            p = binomtest(passed, n, q).pvalue
            if p < pval:
                res.fail("window-law", "%d of %d isomers of half-life %g s decayed within %g s, expected %.2f%% (p=%.1e)" % (
                    passed, n, T1, tw, 100 * q, p), task)
    return res


def relation(task):
    """with the same random stream the windowed cascade of the light fragment is the unlimited one up to the window"""
    import evt
    res = Result()
    sch = evt.get_scheme(task["scheme"])
    r = rng_for("twrel", task["seed"])
    with drv.Driver(sch) as d:
        for i in range(task["n"]):
            seed = r.randint(1, 2 ** 31 - 2)
            tw = 10 ** r.uniform(-11, 2)
            try:
                a = d.event(task["iso"], task["E"], seed, 0.0, -1.0)
                w = d.event(task["iso"], task["E"], seed, 0.0, tw)
            except drv.Died as x:
                res.fail("no-event", str(x)[:300], task)
                break
            fa, fw = a.fr[0], w.fr[0]
            cut = [x for x in a.photons(0) if x[4] > tw]
            res.case(key=("rel", task["seed"], i), nontrivial=bool(cut))
            res.add("window_pairs")
            if (fa.A, fa.Z, fa.U, fa.J, fa.P, fa.nu) != (fw.A, fw.Z, fw.U, fw.J, fw.P, fw.nu) or \
                    [x[5] for x in a.neutrons(0)] != [x[5] for x in w.neutrons(0)]:
                res.fail("window-changes-neutrons", "window %g changes the light fragment or its neutrons (iso=%d E=%g seed=%d)" % (
                    tw, task["iso"], task["E"], seed), task)
                continue
            ga, gw = photon_cm(a, 0), photon_cm(w, 0)
            aa, aw = [x[4] for x in a.photons(0)], [x[4] for x in w.photons(0)]
            keep = [(g, t) for g, t in zip(ga, aa) if t <= tw]
            if len(gw) != len(keep) or any(abs(x - y[0]) > 1e-6 or u != y[1] for x, u, y in zip(gw, aw, keep)):
                res.fail("window-truncation", "window %g: photons %s, unlimited cascade has %s at ages %s (iso=%d E=%g seed=%d)" % (
                    tw, gw, ga, aa, task["iso"], task["E"], seed), task)
    return res


def run(task):
    return law(task) if task["kind"] == "law" else relation(task)


def make_tasks(nl, nr, n, seed):
    r = rng_for("C07stat", seed)
    ts = []
    for i in range(nl):
        iso, e = gen.reaction(r)
        ts.append(dict(stat=True, kind="law", sseed=r.randint(0, 10 ** 9), seed=r.randint(0, 10 ** 9), iso=iso, E=min(e, 5.0), n=n,
                       band=[LO + (HI - LO) * (i % 8) / 8, LO + (HI - LO) * (i % 8 + 1) / 8],
                       w=r.uniform(0.3, 2.5) if (i // 8) % 3 == 2 or i >= nl - 3 else None, t=0.0))
    for i in range(nr):
        iso, e = gen.reaction(r)
        ts.append(dict(stat=True, kind="rel", seed=r.randint(0, 10 ** 9), iso=iso, E=e, n=n // 2,
                       scheme=dict(nmax=14, icc=r.choice(["none", "some"]), iso_p=0.6, gaps=[0.02, 0.3], tscale=[-11, 2], seed="twrel%d" % r.randint(0, 10 ** 9))))
    return ts
