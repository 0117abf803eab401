"""Multi-chance fission: number of pre-fission neutrons and the energy they may carry."""
import math, os
import drv, gen
from core import Result, rng_for
from phys import *

_T = None


def tables():
    global _T
    if _T is None:
        _T = {}
        ls = [l.split() for l in open(os.path.join(drv.DATA, "multichancefission.dat")) if l.strip() and l[0] != "#"]
        i = 0
        while i < len(ls):
            za, ne, nn = int(ls[i][0]), int(ls[i][1]), int(ls[i][2])
            bar = [float(x) for x in ls[i + 1]]
            rows = [[float(x) for x in l] for l in ls[i + 2:i + 2 + ne]]
            _T[za] = (nn, bar, rows)
            i += 2 + ne
    return _T


def probs(iso, e):
    """chance probabilities at incident energy e"""
    nn, bar, rows = tables()[iso]
    for a, b in zip(rows, rows[1:]):
        if a[0] <= e <= b[0]:
            f = (e - a[0]) / (b[0] - a[0])
            p = [a[1 + j] + f * (b[1 + j] - a[1 + j]) for j in range(nn + 1)]
            break
    k = next((j for j, x in enumerate(p) if x <= 0.0), nn + 1)
    p = p[:k] + [0.0] * (nn + 1 - k)
    s = sum(p)
    return [x / s for x in p]


def steep(iso):
    """energies where the probabilities change quickest"""
    nn, bar, rows = tables()[iso]
    out = []
    for a, b in zip(rows, rows[1:]):
        d = max(abs(x - y) for x, y in zip(a[1:], b[1:]))
        if d > 3.0:
            out.append((a[0], b[0]))
    return out


def energies(r, iso, n):
    st = steep(iso)
    out = []
    for i in range(n):
        k = i % 4
        if k == 0:
            e = r.uniform(0.001, 20.0)
        elif k == 3:
            e = r.uniform(6.0, 20.0)
        else:
            a, b = r.choice(st)
            e = r.uniform(a, b)
        out.append(gen.round_e(e))
    return out


def judge_energy(ev, iso, e, bad):
    z, a = gen.compound(iso, e)
    n = ev.npre
    l, h = ev.fr
    if e == 0.0:
        if n:
            bad("sf-prefission", "pre-fission neutrons in spontaneous fission")
        return
    if n == 0:
        return
    nn, bar, rows = tables()[iso]
    ac = a - n
    ex = l.KE + h.KE + l.U + h.U - (me_tab(z, ac) - me_tab(l.Z, l.A) - me_tab(h.Z, h.A))
    top = e + sn_tab(z, a) - sum(sn_tab(z, a - i) for i in range(n))
    if ex > top + 1e-3 + 0.026 * n:
        bad("prefission-excess", "fissioning nucleus (%d,%d) left with %.3f MeV, at most %.3f available after %d pre-fission neutrons" % (z, ac, ex, top, n))
    if top >= bar[n] and ex < bar[n] - 0.051 * n - 1e-3:
        bad("prefission-below-barrier", "fissioning nucleus (%d,%d) left with %.3f MeV, below its barrier of %.3f MeV (%.3f MeV were available)" % (z, ac, ex, bar[n], top))
    for i, q in enumerate(ev.pre):
        if not q[0] > 0 or q[0] > e + 0.5:
            bad("prefission-energy", "pre-fission neutron %d has %.4f MeV at an incident energy of %.4f" % (i, q[0], e))


def run_events(task):
    from scipy import stats
    res = Result()
    case = dict(task)
    iso = task["iso"]
    r = rng_for("mcf", task["seed"])
    cells = {}
    with drv.Driver({}) as d:
        for e in (energies(r, iso, task["n"]) if not task.get("E") else [task["E"]] * task["n"]):
            seed = r.randint(1, 2 ** 31 - 2)
            try:
                ev = d.event(iso, e, seed, 0.0, -1.0)
            except drv.Died as x:
                res.fail("no-event", "iso=%d E=%g seed=%d: %s" % (iso, e, seed, str(x)[:200]), case)
                return res
            one = dict(stat=True, kind="one", iso=iso, E=e, seed=seed)
            bad = lambda s, m: res.fail(s, "%s (iso=%d E=%g seed=%d)" % (m, iso, e, seed), one)
            judge_energy(ev, iso, e, bad)
            p = probs(iso, e)
            res.case(key=(iso, e, seed), nontrivial=p[0] < 1, sample="iso=%d E=%g seed=%d: %d pre-fission neutrons, probabilities %s" % (iso, e, seed, ev.npre, ["%.3f" % x for x in p]))
            res.add("pre_fission_%d" % ev.npre)
            k = ev.npre
            if k >= len(p) or p[k] == 0.0:
                bad("impossible-chance", "%d pre-fission neutrons where the tabulated probability is zero (%s)" % (k, p))
                continue
            bands = [("all",), ("band %d" % int(e / 2),), ("fine %.1f" % (math.floor(e * 2) / 2),)]
            for b in bands:
                for j in range(len(p)):
                    c = cells.setdefault(b + (j,), [0.0, 0.0, 0.0, 0])
                    c[0] += (k == j)
                    c[1] += p[j]
                    c[2] += p[j] * (1 - p[j])
                    c[3] += 1
            c = cells.setdefault(("mean number", -1), [0.0, 0.0, 0.0, 0])
            m = sum(j * x for j, x in enumerate(p))
            c[0] += k
            c[1] += m
            c[2] += sum(j * j * x for j, x in enumerate(p)) - m * m
            c[3] += 1
    nt = 0
    for b, (o, x, v, n) in sorted(cells.items(), key=str):
        if n < 30:
            continue
        nt += 1
        if v > 9:
            z = (o - x) / math.sqrt(v)
            fail = abs(z) > 6.3
            txt = "%.1f sigma" % z
        else:           # few expected: Poisson bound (conservative for a sum of Bernoulli variables)
            pv = stats.poisson.sf(o - 1, x) if o > x else (stats.poisson.sf(n - o - 1, n - x) if b[1] >= 0 else 1.0)
            fail = pv < 1e-9
            txt = "p=%.1e" % pv
        if fail:
            res.fail("chance-law", "iso=%d %s: %d of %d events with %s pre-fission neutrons, %.1f expected (%s)" % (
                iso, b[0], o, n, b[1] if b[1] >= 0 else "(summed)", x, txt), case)
    res.add("statistical_tests", nt)
    return res


def run_yields(task):
    """in a yields run, too, every event has its own number of pre-fission neutrons"""
    from scipy import stats
    res = Result()
    import yld
    iso, e = task["iso"], task["E"]
    p = probs(iso, e)
    z, a = gen.compound(iso, e)
    with drv.Driver({}) as d:
        try:
            ys = yld.run(d, iso, e, task["n"], task["seed"])
        except (drv.Died, OSError, ValueError) as x:
            res.fail("no-yields", str(x)[:200], dict(task))
            return res
    cnt = [0] * 6
    for l, h in ys:
        k = a - l.A - h.A
        if not 0 <= k < len(p) or p[k] == 0.0:
            res.fail("impossible-chance", "yields run iso=%d E=%g: %d pre-fission neutrons where the tabulated probability is zero (%s)" % (iso, e, k, p), dict(task))
            return res
        cnt[k] += 1
        res.case(key=("y", iso, e, task["seed"], res.n), nontrivial=p[0] < 1)
    n = len(ys)
    if max(p) < 0.9 and max(cnt) == n and n * math.log(max(p)) < math.log(1e-9):
        res.fail("yields-one-chance", "yields run iso=%d E=%g seed=%d: all %d events have %d pre-fission neutrons, probabilities are %s" % (
            iso, e, task["seed"], n, cnt.index(n), ["%.3f" % x for x in p]), dict(task))
    else:
        for j in range(len(p)):
            pv = stats.binomtest(cnt[j], n, min(1.0, max(0.0, p[j]))).pvalue
            if pv < 1e-10 and max(p) < 0.9:
                res.fail("chance-law", "yields run iso=%d E=%g: %d of %d events with %d pre-fission neutrons, probability %.4f" % (iso, e, cnt[j], n, j, p[j]), dict(task))
    res.add("yields_events", n)
    return res


def run_onset(task):
    """yields runs below and at the thresholds: only the tabulated chances occur"""
    return run_yields(task)


def run(task):
    if task["kind"] == "events":
        return run_events(task)
    if task["kind"] == "yields":
        return run_yields(task)
    res = Result()
    with drv.Driver({}) as d:
        try:
            ev = d.event(task["iso"], task["E"], task["seed"], 0.0, -1.0)
        except drv.Died as x:
            res.fail("no-event", str(x)[:200], task)
            return res
    bad = lambda s, m: res.fail(s, "%s (iso=%d E=%g seed=%d)" % (m, task["iso"], task["E"], task["seed"]), task)
    judge_energy(ev, task["iso"], task["E"], bad)
    if task["E"]:
        p = probs(task["iso"], task["E"])
        if ev.npre >= len(p) or p[ev.npre] == 0.0:
            bad("impossible-chance", "%d pre-fission neutrons where the tabulated probability is zero (%s)" % (ev.npre, p))
    return res


def make_tasks(tier, seed):
    th = tier == "thorough"
    r = rng_for("C22", seed)
    ts = []
    for rep in range(20 if th else 2):
        for iso in gen.NF:
            ts.append(dict(stat=True, kind="events", iso=iso, n=500, seed=r.randint(0, 10 ** 9)))
    for iso in gen.NF:
        st = steep(iso)
        for _ in range(6 if th else 2):
            a, b = r.choice(st)
            ts.append(dict(stat=True, kind="events", iso=iso, n=150, E=gen.round_e(r.uniform(a, b)), seed=r.randint(0, 10 ** 9)))
            ts.append(dict(stat=True, kind="yields", iso=iso, n=300, E=gen.round_e(r.uniform(7.5, 20.0)), seed=r.randint(1, 10 ** 9)))
    for iso in gen.SF:
        for _ in range(40):
            ts.append(dict(stat=True, kind="one", iso=iso, E=0.0, seed=r.randint(1, 2 ** 31 - 2)))
    return ts


def shrink(c):
    return []
