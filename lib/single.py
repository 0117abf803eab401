"""C24: decay of a single excited nucleus (cgm / cgmEvent)."""
import itertools
import numpy as np
import drv, gen, intern, levels as L, phys
import hf
from core import Result, rng_for

BIN = 0.05


def scheme(k):
    r = rng_for("sgS", k)
    g, n = r.choice([((0.1, 0.5), 10), ((0.02, 0.2), 12), ((0.3, 1.0), 6), ((0.1, 0.4), 1)])
    return L.random_scheme(r, gaps=g, nmax=n, drop=r.choice([0.0, 0.3]))


def start(S, z, a, U):
    """excitation energy the decay starts from: U, or the nearest level when U lies among the levels"""
    lv = S.get(1000 * z + a) or [dict(E=0.0)]
    top = lv[-1]["E"]
    if (top > 0 and U < top + BIN) or (top == 0 and U < BIN / 2):
        return min((l["E"] for l in lv), key=lambda e: abs(e - U)), True
    return U, False


def near_edge(S, z, a, U):
    lv = S.get(1000 * z + a) or [dict(E=0.0)]
    top = lv[-1]["E"]
    es = sorted(abs(l["E"] - U) for l in lv)
    return abs(U - top - BIN) < 1e-3 or abs(U - BIN / 2) < 1e-3 or (len(es) > 1 and abs(es[0] - es[1]) < 1e-6)


def accounted(U, z, a, g, n):
    """(extra photons, neutrons) if the lines, some of them possibly emitted more than once, add up to U"""
    for k in range(len(n), len(n) + 3):
        try:
            sn = sum(phys.sn_decay(z, a - i) for i in range(k))
        except KeyError:
            return (0, k)
        for xn in itertools.combinations_with_replacement(list(n) + [0.0], k - len(n)):   # 0: slower than the grid shows
            D = U - sn - sum(n) - sum(xn) - sum(g)
            for m in range(0, 5):
                tol = BIN / 2 * (k + len(g) + m + 1) + 1e-4     # + a photon too soft for the grid
                if m == 0:
                    if abs(D) <= tol:
                        return (0, k)
                elif D > 0 and any(abs(D - sum(c)) <= tol for c in itertools.combinations_with_replacement(g, m)):
                    return (m, k)
    return None


def bound(res, case, S, z, a, U, g, n):
    name = "Z=%d A=%d at %.4f MeV (seed %d)" % (z, a, U, case["seed"])
    for x, what in ((g, "photon"), (n, "neutron")):
        for v in x:
            k = v / BIN
            if not (v > 0 and np.isfinite(v)) or not (abs(k - round(k)) < 1e-6 or abs(v - BIN / 4) < 1e-9):
                res.fail("line", "%s: %s line at %g MeV" % (name, what, v), case)
                return
        if len(set(x)) != len(x):
            res.fail("line", "%s: the same %s line is listed twice" % (name, what), case)
    U0, disc = start(S, z, a, U)
    if near_edge(S, z, a, U):
        return
    e, spare = U0, 0.0
    try:
        for i in range(len(n)):
            e -= phys.sn_decay(z, a - i)
    except KeyError:
        return
    tot = sum(max(0.0, v - BIN / 2) for v in n) + sum(max(0.0, v - BIN / 2) for v in g)
    if tot > e + 1e-4:
        res.fail("energy-bound", "%s: lines of %.3f MeV and %d neutron separation energies of %.3f MeV exceed the excitation energy" % (name, sum(n) + sum(g), len(n), U0 - e), case)
        return
    if len(g) < 30:
        w = accounted(U0, z, a, g, n)
        if w is None:
            res.fail("energy-balance", "%s: photons %s and neutrons %s do not add up to the excitation energy" % (name, [round(v, 3) for v in g], [round(v, 3) for v in n]), case)
        else:
            res.add("lines_emitted_twice", int(w[0] > 0))
    if disc and n:
        res.fail("neutron-from-levels", "%s: a neutron from the discrete levels" % name, case)


def run_one(case, d=None, S=None):
    res = Result()
    S = S or scheme(case["scheme"])
    own = d is None
    z, a, U = case["z"], case["a"], case["U"]
    try:
        if own:
            d = drv.Driver(S)
        for op in case.get("before", []):
            d.cmd(op)
        tm = case.get("t", 0.0)
        g, n = d.cgm(1000 * z + a, U, case["seed"], t=tm)
        bound(res, case, S, z, a, U, g, n)
        if d.more is not None:
            lab, cm = d.more
            for i, x in enumerate(lab):
                l = sum(v * v for v in x[1:]) if len(x) == 4 else float("nan")
                if not (len(x) == 4 and x[0] >= tm and (l == 0.0 or abs(l - 1) < 1e-6)):
                    res.fail("time-direction", "Z=%d A=%d at %g MeV, seed %d, time %g: particle %d has time %r and direction %r" % (z, a, U, case["seed"], tm, i, x[:1], x[1:]), case)
                    break
            for e, x in zip(n, cm):
                l = sum(v * v for v in x[1:]) if len(x) == 4 else float("nan")
                if not (len(x) == 4 and abs(x[0] - e) < 1e-9 and (l == 0.0 or abs(l - 1) < 1e-6)):
                    res.fail("cm-neutron", "Z=%d A=%d at %g MeV, seed %d: neutron of %g MeV has centre-of-mass values %r" % (z, a, U, case["seed"], e, x), case)
                    break
        if case.get("c"):
            g2, n2 = d.cgm(1000 * z + a, U, case["seed"], capi=True)
            if (g2, n2) != (g, n):
                res.fail("c-differs", "Z=%d A=%d at %g MeV, seed %d: C interface gives %s / %s, C++ %s / %s" % (z, a, U, case["seed"], g2, n2, g, n), case)
        if case.get("before"):
            with drv.Driver(S) as d2:
                f = d2.cgm(1000 * z + a, U, case["seed"])
            if f != (g, n):
                res.fail("history", "Z=%d A=%d at %g MeV, seed %d: after %s the decay differs from that in a fresh process" % (z, a, U, case["seed"], case["before"]), case)
        res.case(key=(z, a, U, case["seed"]), nontrivial=len(g) + len(n) > 1, sample="Z=%d A=%d U=%.3f: photons %s neutrons %s" % (z, a, U, [round(v, 3) for v in g], [round(v, 3) for v in n]))
        res.add("neutrons", len(n))
        res.add("photons", len(g))
    except drv.Died as ex:
        if ex.rc == "timeout":
            res.add("timeout")
        else:
            res.fail("died", "Z=%d A=%d at %g MeV, seed %d: status %s %s" % (z, a, U, case["seed"], ex.rc, ex.err[-200:]), case)
    finally:
        if own and d is not None:
            d.close()
    return res


def lines(h):
    """what is left of a list of energies after the spectrum grid"""
    out = []
    for x in h:
        k = int(x / BIN + 0.5)
        if k > 0:            # particles below half a grid step are not listed
            out.append(k)
    return sorted(set(out))


def run_stat(case):
    res = Result()
    z, a, U, N, s = case["stat"]
    S = hf.mc_scheme(case["scheme"])
    d = d2 = None
    try:
        d2 = drv.Driver(S, exe="i_hf", timeout=600)
        A = [(lines(n), lines(g)) for n, g in hf.parse(d2.cmd("simx %d %d %r %d %d" % (z, a, U, N, s)))]
        d = drv.Driver(S)
        Bm = []
        for i in range(N):
            g, n = d.cgm(1000 * z + a, U, s + 17 + i * 31)
            Bm.append((sorted(int(round(v / BIN)) if v > 0.02 else 0 for v in n), sorted(int(round(v / BIN)) if v > 0.02 else 0 for v in g)))
    except drv.Died:
        res.add("refused")
        return res
    finally:
        for x in (d, d2):
            if x is not None:
                x.close()
    obs = dict(neutrons=lambda h: len(h[0]), photons=lambda h: len(h[1]), hardest=lambda h: h[1][-1] if h[1] else -1, softest=lambda h: h[1][0] if h[1] else -1,
               neutron=lambda h: h[0][-1] if h[0] else -1, slow=lambda h: h[0][0] if h[0] else -1, total=lambda h: sum(h[1]))
    for k, fn in obs.items():
        p = hf.two([fn(h) for h in A], [fn(h) for h in Bm])
        res.add("statistical_tests")
        if p < 1e-9:
            res.fail("spectrum-" + k, "Z=%d A=%d at %.3f MeV: distribution of '%s' differs from that of the decay probabilities (p=%.2g, %d decays)" % (z, a, U, k, p, N), case)
    res.n += N
    for i in range(0, N, 50):
        res.nontrivial.add("st%r%d" % (case["stat"], i))
    return res


def run(case):
    return run_stat(case) if "stat" in case else run_one(case)


def task_fn(t):
    res = Result()
    r = rng_for("C24", t["seed"], t["id"], t["kind"])
    nuc = L.nuclei(28, 68)
    if t["kind"] == "stat":
        if not intern.ready("i_hf"):
            return intern.api_fallback(t["id"], "C24")
        z, a = r.choice(nuc)
        sc = r.randint(0, 10 ** 6)
        U = round(r.uniform(4.0, 15.0), 4)
        if len(hf.mc_scheme(sc).get(1000 * z + a, [0])) and start(hf.mc_scheme(sc), z, a, U)[1]:
            U = 8.0
        return run_stat(dict(scheme=sc, stat=[z, a, U, t["n"], r.randint(1, 10 ** 6)]))
    sc = r.randint(0, 10 ** 6)
    S = scheme(sc)
    d = drv.Driver(S)
    try:
        for i in range(t["n"]):
            z, a = r.choice(nuc)
            U = r.choice([r.uniform(0.05, 3.0), r.uniform(2, 12), r.uniform(0.5, 30.0)])
            if r.random() < 0.1 and S.get(1000 * z + a):
                U = r.choice(S[1000 * z + a])["E"] or U
            c = dict(scheme=sc, z=z, a=a, U=U, seed=r.randint(1, 2 ** 31 - 2), c=r.random() < 0.3, t=r.choice([0.0, 0.0, round(r.uniform(0, 100), 3)]))
            if r.random() < 0.08:
                iso, e = gen.reaction(r)
                c["before"] = [r.choice(["event %d %r %d 0.0 %r" % (iso, e, r.randint(1, 10 ** 6), r.choice([-1.0, 1e-9])), "cgm %d %r 5" % (1000 * z + a, U + 1), "cgm 54138 20.0 7"])]
            res.merge(run_one(c, d, S))
            if d.p.poll() is not None:
                d.close()
                d = drv.Driver(S)
    finally:
        d.close()
    return res


def tasks(tier, seed):
    q = tier == "quick"
    return [dict(kind="stat", id=i, seed=seed, n=800 if q else 5000) for i in range(12 if q else 96)] + \
           [dict(kind="one", id=i, seed=seed, n=120 if q else 1500) for i in range(32 if q else 64)]


def shrink(c):
    if "stat" in c:
        return
    if c.get("c"):
        yield dict(c, c=False)
    if c.get("before"):
        yield {k: v for k, v in c.items() if k != "before"}
    for U in (1.0, 3.0, 6.0, 10.0):
        if U < c["U"]:
            yield dict(c, U=U)
