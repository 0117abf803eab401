"""C20: photon transmission coefficients against the documented Lorentzian forms and resonance systematics."""
import math
import drv, intern, levels as L, phys
from core import Result, rng_for

TWO_PI = 2 * math.pi


def resonances(z, a, beta, lda):
    """list of (kind, energy, width, peak cross section)"""
    if beta == 0.0:
        e = 49.336 * a ** -0.2409
        e1 = [(e, 0.3 * e, 10.6 * a / (0.3 * e))]
    else:
        e = 50.0 * a ** -0.232
        ea = e * math.exp(-0.946 * beta)
        wa, wb = (0.282 - 0.263 * beta) * ea, (0.35 - 0.14 * beta) * e
        e1 = [(ea, wa, 3.48 * a / wa), (e, wb, 8.26 * a / wb)]
    em, wm = 41.0 * a ** (-1 / 3.), 4.0
    ee, we = 63.0 * a ** (-1 / 3.), 6.11 - 0.012 * a
    se = 1.5e-4 * z * z * ee * ee * a ** (-1 / 3.) / we
    # M1 strength at 7 MeV is a fixed fraction of the E1 strength there
    f1 = sum(strength_gl(7.0, *r, lda, 0.0) for r in e1)
    sm = 17.01 * a ** -0.878 * f1 / strength_sl(1, 7.0, em, wm, 1.0)
    return dict(E1=e1, M1=[(em, wm, sm)], E2=[(ee, we, se)])


def lor(eg, e, w):
    return eg * w / ((e * e - eg * eg) ** 2 + (eg * w) ** 2)


def strength_sl(l, eg, e, w, s):
    return 26e-8 / (2 * l + 1) * s * w * eg ** (2 - 2 * l) * lor(eg, e, w)


def strength_gl(eg, e, w, s, a, ex):
    t2 = ex / a if ex > 0 else 0.0
    wt = w * (eg * eg + 4 * math.pi ** 2 * t2) / (e * e)
    return 26e-8 / 3 * s * w * (lor(eg, e, wt) + 0.7 * w * 4 * math.pi ** 2 * t2 / e ** 5)


def transmission(res, kind, eg, a, ex):
    if kind == "E1":
        f = sum(strength_gl(eg, *r, a, ex) for r in res["E1"])
        l = 1
    else:
        l = 1 if kind == "M1" else 2
        f = sum(strength_sl(l, eg, *r) for r in res[kind])
    return 3.14035 * TWO_PI * eg ** (2 * l + 1) * f


def close(x, y):
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + 1e-300


def run(case, d=None):
    res = Result()
    if not intern.ready("i_ld"):
        return intern.api_fallback(0, "C20")
    own = d is None
    try:
        if own:
            d = drv.Driver(L.random_scheme(rng_for("psfS", case.get("scheme", 0)), nmax=8), exe="i_ld")
        for q in case["seq"]:
            if q["kind"] == "gam":
                z, a, la, be = q["z"], q["a"], q["la"], q["beta"]
                f = d.cmd("gam %d %d %r %r %s" % (z, a, la, be, " ".join("%s %r %r %r" % tuple(x) for x in q["g"]))).split()[1:]
                R = resonances(z, a, be, la)
                for x, y in zip(q["g"], f):
                    k, eg, ag, ex = x
                    w = transmission(R, k, eg, ag, ex)
                    v = float(y)
                    if not math.isfinite(v) or v < 0:
                        res.fail("range", "%s transmission of a %g MeV photon from Z=%d A=%d is %g" % (k, eg, z, a, v), case)
                    elif not close(v, w):
                        res.fail("strength-" + k, "%s transmission of a %g MeV photon from Z=%d A=%d (deformation %g, final energy %g, level-density parameter %g): %.10g, resonance form gives %.10g" % (k, eg, z, a, be, ex, ag, v, w), case)
                    res.case(key=(z, a, be, k, eg, ex), nontrivial=w > 0, sample="%s %.4g MeV photon of Z=%d A=%d: T=%.4g" % (k, eg, z, a, v))
            else:
                z, a, u = q["z"], q["a"], q["u"]
                f = d.cmd("tg %d %d %r" % (z, a, u)).split()[1:]
                la = float(f[1])
                R = resonances(z, a, 0.0, la)
                sn = phys.sn_decay(z, a)
                for i in range(2, len(f), 4):
                    eg = float(f[i])
                    ex = max(0.0, sn - eg)
                    if abs(sn - eg) < 2e-4:      # separation energy known to single precision only
                        continue
                    for k, y in zip(("E1", "M1", "E2"), f[i + 1:i + 4]):
                        v, w = float(y), transmission(R, k, eg, la, ex)
                        # the mass table is held in single precision: the final energy is uncertain by ~1e-5 MeV
                        if k == "E1":
                            ok = abs(v - w) <= max(abs(transmission(R, k, eg, la, max(0.0, ex + s)) - w) for s in (-2e-4, 2e-4)) + 1e-9 * w
                        else:
                            ok = close(v, w)
                        if not ok or v < 0:
                            res.fail("stored-" + k, "decay of Z=%d A=%d at %g MeV: stored %s transmission of a %g MeV photon is %.10g, resonance form gives %.10g" % (z, a, u, k, eg, v, w), case)
                        res.case(key=(z, a, u, k, eg), nontrivial=w > 0)
    except drv.Died as ex:
        if ex.rc == "timeout":
            res.add("timeout")
        else:
            res.fail("died", "no photon strengths: %s" % ex.err[-200:], case)
    finally:
        if own and d is not None:
            d.close()
    return res


def gen_step(r, nuc):
    z, a = r.choice(nuc)
    if r.random() < 0.3:
        return dict(kind="tg", z=z, a=a, u=r.uniform(1.0, 30.0))
    be = 0.0 if r.random() < 0.5 else round(r.uniform(-0.4, 0.5), 4)
    g = []
    for _ in range(12):
        eg = 10 ** r.uniform(-3, 1.5) if r.random() < 0.6 else r.uniform(0.01, 30)
        g.append([r.choice(["E1", "M1", "E2"]), eg, r.uniform(2, 25), r.choice([0.0, -1.0, r.uniform(0, 30)])])
    return dict(kind="gam", z=z, a=a, la=r.uniform(2, 25), beta=be, g=g)


def task_fn(t):
    res = Result()
    if not intern.ready("i_ld"):
        return intern.api_fallback(t["id"], "C20")
    r = rng_for("C20", t["seed"], t["id"])
    sc = r.randint(0, 10 ** 6)
    mk = lambda: drv.Driver(L.random_scheme(rng_for("psfS", sc), nmax=8), exe="i_ld")
    d = mk()
    nuc = L.nuclei(26, 70)
    try:
        for i in range(t["n"]):
            c = dict(scheme=sc, seq=[gen_step(r, nuc) for _ in range(r.randint(1, 4))])
            res.merge(run(c, d))
            if d.p.poll() is not None:
                d.close()
                d = mk()
    finally:
        d.close()
    return res


def tasks(tier, seed):
    return [dict(id=i, seed=seed, n=250 if tier == "quick" else 400) for i in range(16 if tier == "quick" else 64)]


def shrink(c):
    s = c.get("seq", [])
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(c, seq=s[:i] + s[i + 1:])
    for i, q in enumerate(s):
        if q["kind"] == "gam" and len(q["g"]) > 1:
            for k in range(len(q["g"])):
                yield dict(c, seq=s[:i] + [dict(q, g=[q["g"][k]])] + s[i + 1:])
