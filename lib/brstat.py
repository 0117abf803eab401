"""Statistics of discrete transitions: every nucleus gets the same small level scheme with generic energies, so that
each transition is recognised by its photon energy; branch and conversion frequencies against exact binomial laws."""
import drv, gen, levels as L
from core import Result, rng_for
from oracles import photon_cm, discrete_start, tol_e
from phys import *

PVAL = 1e-9


def uniform_levels(kind, seed):
    r = rng_for("brstat", kind, seed)
    if kind == "conversion":
        e1 = round(r.uniform(0.2, 0.9), 6)
        icc = float("%.3e" % 10 ** r.uniform(-0.7, 0.7))
        return [dict(E=0.0, g=[]), dict(E=e1, g=[(0, float("%.3e" % r.uniform(0.1, 1.0)), icc)])]
    while True:
        n = r.randint(4, 6)
        es = [0.0]
        for i in range(1, n):
            es.append(round(es[-1] + r.uniform(0.08, 0.5), 6))
        ds = sorted(es[i] - es[j] for i in range(n) for j in range(i))
        if all(b - a > 1e-3 for a, b in zip(ds, ds[1:])):
            break
    lv = [dict(E=0.0, g=[])]
    for i in range(1, n):
        k = min(i, r.randint(2, 4))
        g = []
        for f in sorted(r.sample(range(i), k)):
            g.append((f, float("%.3e" % r.uniform(0.05, 1.0)), r.choice([0.0, float("%.3e" % 10 ** r.uniform(-1, 0.7))])))
        lv.append(dict(E=es[i], g=g))
    return lv


def scheme(kind, seed):
    base = uniform_levels(kind, seed)
    sch = {}
    for z, a in L.nuclei():
        h = 0.5 if a % 2 else 0.0
        # spins/parities spread so that every level can be fed
        sch[1000 * z + a] = [dict(E=l["E"], J=h + [0, 2, 1, 3, 2, 4][i % 6], P=(1, 1, -1, -1, 1, -1)[i % 6], T=0.0, g=l["g"]) for i, l in enumerate(base)]
    return base, sch


def pval(k, n, p):
    from scipy.stats import binomtest
    if n == 0 or p >= 1.0:
        return 1.0 if (n == 0 or k == n) else 0.0
    return binomtest(k, n, p).pvalue


def run(task):
    res = Result()
    base, sch = scheme(task["kind"], task["sseed"])
    br = L.model(base_full(base))
    cnt = {}
    vis = inv = 0
    r = rng_for("brstat-ev", task["seed"])
    with drv.Driver(sch) as d:
        for i in range(task["n"]):
            try:
                ev = d.event(task["iso"], task["E"], r.randint(1, 2 ** 31 - 2))
            except drv.Died as x:
                res.fail("no-event", str(x)[:300], task)
                break
            for k in range(2):
                f = ev.fr[k]
                za = 1000 * f.Z + f.A - f.nu
                if za not in sch:
                    continue
                gs = photon_cm(ev, k)
                if task["kind"] == "conversion":
                    left = f.U - sum(x[5] for x in ev.neutrons(k)) - sum(sn_decay(f.Z, f.A - j) for j in range(f.nu)) - sum(gs)
                    if not f.nu and discrete_start(f.U, sch[za]) is not None:
                        continue
                    if abs(left - base[1]["E"]) < 1e-4:
                        inv += 1
                    elif gs and abs(gs[-1] - base[1]["E"]) < tol_e(f.nu):
                        vis += 1
                else:
                    for x in gs:
                        for i_ in range(1, len(base)):
                            for (fi, b, gr) in br[i_]:
                                if abs(base[i_]["E"] - base[fi]["E"] - x) < 2e-6:
                                    cnt[(i_, fi)] = cnt.get((i_, fi), 0) + 1
            res.case(key=(task["kind"], task["sseed"], task["seed"], i), nontrivial=ev.ng > 0)
    res.add("branching_events", task["n"])
    if task["kind"] == "conversion":
        p = 1.0 / (1.0 + base[1]["g"][0][2])
        q = pval(vis, vis + inv, p)
        res.add("conversion_transitions", vis + inv)
        if q < PVAL:
            res.fail("conversion", "transition with conversion coefficient %g: %d photons in %d transitions, expected %.1f%% (p=%.1e)" % (
                base[1]["g"][0][2], vis, vis + inv, 100 * p, q), task)
    else:
        for i_ in range(1, len(base)):
            w = [(fi, b * gr) for (fi, b, gr) in br[i_]]
            tot = sum(x for _, x in w)
            n = sum(cnt.get((i_, fi), 0) for fi, _ in w)
            res.add("branching_transitions", n)
            for fi, x in w:
                q = pval(cnt.get((i_, fi), 0), n, x / tot)
                if q < PVAL:
                    res.fail("branching", "level %d (%.6f MeV) -> level %d: %d of %d photons, listed intensity %.4f (p=%.1e)" % (
                        i_, base[i_]["E"], fi, cnt.get((i_, fi), 0), n, x / tot, q), task)
        unl = [(i_, fi) for i_ in range(1, len(base)) for fi in range(i_) if fi not in [q[0] for q in br[i_]]]
        res.add("_unlisted", len(unl))
    return res


def base_full(base):
    return [dict(l, J=0.0, P=1, T=0.0) for l in base]


def make_tasks(nb, nc, n, seed, tag="C06"):
    r = rng_for(tag, "brstat", seed)
    ts = []
    for i in range(nb + nc):
        iso, e = gen.reaction(r)
        e = min(e, 5.0)
        ts.append(dict(stat=True, kind="branch" if i < nb else "conversion", sseed=r.randint(0, 10 ** 9), seed=r.randint(0, 10 ** 9), iso=iso, E=e, n=n))
    return ts
