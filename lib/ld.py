"""C21: level densities against an independent implementation of the Gilbert-Cameron form."""
import math, os
import numpy as np
import drv, intern, levels as L
from core import Result, rng_for

_K = None


def table():
    global _K
    if _K is None:
        _K = {}
        for l in open(os.path.join(drv.DATA, "kcksyst.dat")):
            if l[0] == "#" or not l.strip():
                continue
            f = lambda a, b: float(l[a:b].split()[0]) if l[a:b].strip() else 0.0
            z, a = int(l[0:5]), int(l[5:11])
            em = f(37, 47)
            _K[z, a] = (f(11, 24), f(24, 37), em) + ((f(57, 67), f(67, 77)) if em > 0 else (f(77, 87), f(87, 97)))
    return _K


def astar(A):
    return 0.126181 * A + 7.52191e-5 * A * A


def shell(u, a, dw, A):
    return a * (1 + (1 - math.exp(-0.31 * A ** (-1 / 3.) * u)) * dw / u) if u > 0 else a


def cut(u, a, A, s0):
    return max(math.sqrt(0.006945 * math.sqrt(max(u, 0.5) / a) * A ** (5 / 3.)), s0)


def fg(u, a, s):
    return math.exp(2 * math.sqrt(a * u)) / (12 * math.sqrt(2) * a ** 0.25 * u ** 1.25 * s) if u > 0 else 0.0


def sigma0(spins, A):
    s = math.sqrt(sum(j * (j + 1) for j in spins) / (2.0 * len(spins))) if len(spins) > 1 else 0.0
    return s if s > 0 else math.sqrt(math.sqrt(0.0465 * A + 4.296))


def connect(A, top, n, p, dw, s0):
    """(T, E0, Em) joining the cumulative number of known levels to the Fermi gas; None if impossible"""
    a0 = astar(A)
    lvu = top - p
    a = shell(lvu, a0, dw, A)
    x1, x2 = max(p, 9 / (4 * a)), 100.0
    for i in range(101):
        ex = (x1 + x2) / 2
        ux = ex - p
        a = shell(max(lvu, ux), a0, dw, A)
        if a <= 0 or ux <= 0:
            return None
        y = math.sqrt(a / ux) - 1.5 / ux
        if abs(y) * ux < 1e-6:
            return "degenerate"    # the two forms only meet where the temperature diverges, below the levels
        if y <= 0:
            return None
        t = 1 / y
        try:
            e1 = t * math.log((math.exp(top / t) - 1) / n)
        except (OverflowError, ValueError):
            return None
        e2 = ex - t * math.log(t * fg(ux, a, cut(ux, a, A, s0)))
        if abs(e1 - e2) <= 1e-6:
            return t, e1, ex
        if e1 < e2:
            x1 = ex
        else:
            x2 = ex
    return None


def extrapolate(A, top, p, dw, s0, T, E0):
    """(Em, a*, density there); None when the two forms do not meet below 100 MeV"""
    x1, x2 = max(p, top), 100.0
    for i in range(101):
        ex = (x1 + x2) / 2
        ux = ex - p
        a = (1 / T + 1.5 / ux) ** 2 * ux
        d = ct(ex, T, E0) - fg(ux, a, cut(ux, a, A, s0))
        if abs(d) <= 1e-6:
            return ex, a / shell(ux, 1.0, dw, A), ct(ex, T, E0)
        if d < 0:
            x2 = ex
        else:
            x1 = ex
    return None


def ct(e, T, E0):
    return math.exp((e - E0) / T) / T


def expected(z, A, lv):
    """parameters: dict(pair, dw, Em, T, E0, a, s0, how)"""
    p, dw, em, T, E0 = table()[z, A]
    s0 = sigma0([l["J"] for l in lv], A)
    top, n = lv[-1]["E"], len(lv)
    o = dict(pair=p, dw=dw, Em=em, T=T, E0=E0, a=astar(A), s0=s0, how="table")
    if n > 2:
        c = connect(A, top, n, p, dw, s0)
        o["how"] = "levels"
        if c == "degenerate":
            o["how"] = c
            return o
        if c:
            o["T"], o["E0"], o["Em"] = c
        else:
            o["Em"] = 0.0
    if o["Em"] == 0.0:
        o["how"] = "systematics"
        o["T"] = 47.0582 * A ** -0.893714 * math.sqrt(1 - 0.1 * dw)
        o["E0"] = p - 0.16 * dw + o["T"] * (-0.0138 * A - 1.379)
        x = extrapolate(A, top, p, dw, s0, o["T"], o["E0"])
        if x:
            o["Em"], o["a"], o["rhoEm"] = x
        else:
            o["how"] = "temperature"
    return o


def density(e, A, o):
    """rho, a, spin cut-off at e"""
    if o["Em"] == 0.0:
        return ct(e, o["T"], o["E0"]), o["a"], o["s0"]
    u = e - o["pair"]
    below = e < o["Em"]
    a = shell(o["Em"] - o["pair"] if below else u, o["a"], o["dw"], A)
    s = cut(u, a, A, o["s0"])
    return (ct(e, o["T"], o["E0"]) if below else fg(u, a, s)), a, s


def spin(j, s):
    x = j + 0.5
    r = x * math.exp(-x * x / (2 * s * s)) / (s * s)
    return r if r >= 1e-10 else 0.0


def near(x, y, tol):
    return abs(x - y) <= tol * max(abs(x), abs(y)) + 1e-14


def one(res, case, d, S, q):
    if q["kind"] == "sd":
        h, s1, s0 = q["h"], q["s1"], q["s0"]
        f = [float(x) for x in d.cmd("sd %r %r %r" % (h, s1, s0)).split()[1:]]
        s = max(s1, s0)
        if min(f) < 0 or abs(f[0] + f[1] - 1) > 1e-12:
            res.fail("parity-shares", "parity shares %r" % (f[:2],), case)
        if abs(f[0] - 0.5) > 1e-12:
            res.fail("parity-shares", "positive parity has a share of %g" % f[0], case)
        for j, v in enumerate(f[2:]):
            w = spin(j + h, s)
            if abs(v - w) > 1e-9 * w + (2e-10 if w < 2e-10 else 0):
                res.fail("spin-form", "share of spin %g at cut-off %g: %.8g, expected %.8g" % (j + h, s, v, w), case)
                break
        n = sum(f[2:])
        # trapezoidal / midpoint sum of a unit integral: off by at most 1/(12 s^2)
        if 1.5 < s < 12 and abs(n - 1) > 0.09 / (s * s) + 1e-4:
            res.fail("spin-norm", "spin shares at cut-off %g add up to %.6f" % (s, n), case)
        res.case(key=("sd", h, s1, s0), nontrivial=s > 0.5)
        return
    z, A, u, i = q["z"], q["a"], q["u"], q["i"]
    if q["kind"] == "dens":
        g = d.cmd("nuc %d %d %r %d %r" % (z, A, u, i, 1.0)).split()
        z1, A1 = int(g[2]), int(g[3])
        lv = levels_of(S, z1, A1)
        f = d.cmd("dens %d %d %r %d" % (z, A, u, i)).split()
        nc, MJ = int(f[1]), int(f[2])
        o = dict(zip(("pair", "dw", "Em", "a", "T", "E0", "s0"), (float(x) for x in g[7:14])))   # compared in the "nuc" steps
        pos = 3
        h = 0.5 if A1 % 2 else 0.0
        nb = 0
        while pos < len(f):
            e = float(f[pos])
            v = [float(x) for x in f[pos + 2:pos + 2 + 2 * MJ]]
            pos += 2 + 2 * MJ
            if e <= lv[-1]["E"]:
                continue
            rho, a, s = density(e, A1, o)
            if not ok_density(sum(v), rho * sum(spin(j + h, s) for j in range(MJ)), e, o):
                res.fail("stored-density", "stored density of Z=%d A=%d at %g MeV adds up to %.8g, expected %.8g" % (z1, A1, e, sum(v), rho * sum(spin(j + h, s) for j in range(MJ))), case)
                return
            tot = sum(v)
            n = sum(spin(j + h, s) for j in range(MJ))
            for j in range(MJ):
                w = 0.5 * spin(j + h, s) / n
                if min(v[2 * j:2 * j + 2]) < 0 or max(abs(v[2 * j + k] / tot - w) for k in (0, 1)) > 1e-5:
                    res.fail("stored-spins", "stored density of Z=%d A=%d at %g MeV: spin %g has shares %.6g (+) %.6g (-), expected %.6g each" % (z1, A1, e, j + h, v[2 * j] / tot, v[2 * j + 1] / tot, w), case)
                    return
            nb += 1
        res.case(key=("dens", z, A, u, i), nontrivial=nb > 1)
        return
    f = d.cmd("nuc %d %d %r %d 1.0" % (z, A, u, i)).split()
    z1, A1 = int(f[2]), int(f[3])
    lv = levels_of(S, z1, A1)
    o = expected(z1, A1, lv)
    top = lv[-1]["E"]
    c = dict(zip(("half", "pair", "dw", "Em", "a", "T", "E0", "s0"), (float(x) for x in f[6:14])))
    name = "Z=%d A=%d (%d levels up to %.3f MeV)" % (z1, A1, len(lv), top)
    if not (near(c["pair"], o["pair"], 1e-9) and near(c["dw"], o["dw"], 1e-9)):
        res.fail("tabulated", "%s: pairing %g, shell correction %g; tabulated %g and %g" % (name, c["pair"], c["dw"], o["pair"], o["dw"]), case)
    if not near(c["s0"], o["s0"], 1e-9):
        res.fail("sigma0", "%s: spin cut-off of the levels %g, expected %g" % (name, c["s0"], o["s0"]), case)
    ks = ("T", "E0", "Em", "a")
    if o["how"] == "degenerate":
        ks = ()
    elif (c["Em"] == 0) != (o["Em"] == 0):
        # the matching of the two forms is converged to 1e-6 levels per MeV: above ~1e8 it can fail by rounding
        if o["how"] == "temperature" or o.get("rhoEm", 0) > 1e6:
            res.add("matching_at_rounding")
            ks = ("T", "E0")
            o["how"] = "systematics"
    tol = 1e-5
    for k in ks:
        if abs(c[k] - o[k]) > tol * max(1.0, abs(o[k])) * (20 if k == "Em" else 1):
            res.fail("parameters", "%s: %s = %.8g, expected %.8g (%s)" % (name, k, c[k], o[k], o["how"]), case)
            return
    # densities: formula on the reported parameters, positive, rising, continuous where the forms meet
    es = sorted(q["e"])
    if o["how"] == "degenerate":
        es = [x for x in es if x > max(top, c["Em"])]
    ex = list(es)
    if c["Em"] > top + 0.01 and o["how"] != "degenerate":
        ex += [c["Em"] * (1 - 1e-9) - 1e-9, c["Em"] * (1 + 1e-9) + 1e-9, c["Em"] - 0.02, c["Em"] + 0.02]
    order = list(range(len(ex)))
    rng_for(q["shuf"]).shuffle(order)
    f = d.cmd("nuc %d %d %r %d %s" % (z, A, u, i, " ".join(repr(ex[k]) for k in order))).split()[15:]
    got = {}
    cc = dict(pair=c["pair"], dw=c["dw"], Em=c["Em"], T=c["T"], E0=c["E0"], a=c["a"], s0=c["s0"])
    for n, k in enumerate(order):
        rho, a, s = float(f[3 * n]), float(f[3 * n + 1]), max(float(f[3 * n + 2]), c["s0"])
        got[k] = rho
        if not (math.isfinite(rho) and rho > 0):
            res.fail("positive", "%s: density at %g MeV is %g" % (name, ex[k], rho), case)
            return
        wr, wa, wsp = density(ex[k], A1, cc)
        if not near(rho, wr, 1e-8):
            res.fail("form", "%s: density at %.6g MeV is %.9g, expected %.9g" % (name, ex[k], rho, wr), case)
            return
        if not near(s, wsp, 1e-8):
            res.fail("spin-cutoff", "%s: spin cut-off at %.6g MeV is %.9g, expected %.9g" % (name, ex[k], s, wsp), case)
            return
        if not near(a, wa, 1e-8):
            res.fail("a-parameter", "%s: level-density parameter at %.6g MeV is %.9g, expected %.9g" % (name, ex[k], a, wa), case)
            return
    m = len(es)
    for k in range(m - 1):
        if es[k] > top and es[k + 1] > es[k] + 1e-6 and got[k + 1] <= got[k] * (1 - (5e-3 if o["how"] == "table" else 1e-6)):
            res.fail("rising", "%s: density falls from %g at %g MeV to %g at %g MeV" % (name, got[k], es[k], got[k + 1], es[k + 1]), case)
    if len(ex) > m:
        lo, hi, l2, h2 = (got[m + k] for k in range(4))
        # tabulated parameters (nuclei with one or two known levels) were matched with other level data: not claimed
        if o["how"] != "table" and abs(hi / lo - 1) > 1e-4:
            res.fail("continuity", "%s: density jumps from %.7g to %.7g where the two forms meet (%.5f MeV)" % (name, lo, hi, c["Em"]), case)
        elif o["how"] == "levels" or o["how"] == "systematics":
            # equal logarithmic slopes at the level-density parameter of the meeting point
            um = c["Em"] - c["pair"]
            am = shell(um, c["a"], c["dw"], A1)
            sh = math.sqrt(am / um) - 1.5 / um
            sl = math.log(lo / l2) / (c["Em"] * (1 - 1e-9) - 1e-9 - (c["Em"] - 0.02))
            if abs(sl - sh) > 1e-4 * abs(sh) + 1e-5:
                res.fail("slope", "%s: logarithmic slope changes from %.6f to %.6f per MeV where the two forms meet (%.5f MeV)" % (name, sl, sh, c["Em"]), case)
            res.add("joins_checked")
    res.add("how_" + o["how"])
    res.case(key=("nuc", z, A, u, i, tuple(es[:2])), sample="%s: T=%.4f, Em=%.3f, %s" % (name, c["T"], c["Em"], o["how"]))


def ok_density(v, w, e, o):
    return abs(v - w) <= 1e-3 * w if abs(e - o["Em"]) > 1e-3 else abs(v - w) <= 0.5 * w


def levels_of(S, z, a):
    lv = S.get(1000 * z + a)
    return lv if lv else [dict(E=0.0, J=0.5 if a % 2 else 0.0, P=1)]


def run(case, d=None):
    res = Result()
    if not intern.ready("i_ld"):
        return intern.api_fallback(0, "C21")
    own = d is None
    S = scheme(case["scheme"])
    try:
        if own:
            d = drv.Driver(S, exe="i_ld")
        for q in case["seq"]:
            one(res, case, d, S, q)
    except drv.Died as ex:
        if ex.rc == "timeout":
            res.add("timeout")
        elif "Discrete levels" in ex.err or ex.rc in (1, 255):
            res.add("refused")
        else:
            res.fail("died", "no level density: rc %s %s" % (ex.rc, ex.err[-200:]), case)
    finally:
        if own and d is not None:
            d.close()
    return res


_SC = {}


def scheme(k):
    if k not in _SC:
        _SC.clear()
        r = rng_for("ldS", k)
        g, n = r.choice([((0.02, 0.6), 12), ((0.05, 0.3), 30), ((0.3, 1.0), 20), ((0.5, 1.5), 6), ((0.01, 0.1), 8)])
        _SC[k] = L.random_scheme(r, gaps=g, nmax=n, drop=r.choice([0.0, 0.2]))
    return _SC[k]


def gen_step(r, nuc):
    x = r.random()
    if x < 0.1:
        return dict(kind="sd", h=r.choice([0.0, 0.5]), s1=r.choice([0.0, r.uniform(0.3, 10)]), s0=r.uniform(0.5, 9))
    z, a = r.choice(nuc)
    q = dict(z=z, a=a, u=r.uniform(2.0, 30.0), i=r.choice([0, 0, 1, 2]))
    if x < 0.25:
        return dict(q, kind="dens")
    return dict(q, kind="nuc", e=[r.uniform(0.0, 30.0) for _ in range(8)], shuf=r.randint(0, 10 ** 6))


def task_fn(t):
    res = Result()
    if not intern.ready("i_ld"):
        return intern.api_fallback(t["id"], "C21")
    r = rng_for("C21", t["seed"], t["id"])
    nuc = [n for n in L.nuclei(27, 69) if n in table()]
    d = None
    try:
        for i in range(t["n"]):
            if i % 25 == 0:
                sc = r.randint(0, 10 ** 6)
                if d:
                    d.close()
                d = drv.Driver(scheme(sc), exe="i_ld")
            c = dict(scheme=sc, seq=[gen_step(r, nuc) for _ in range(r.randint(1, 4))])
            res.merge(run(c, d))
            if d.p.poll() is not None:
                d.close()
                d = drv.Driver(scheme(sc), exe="i_ld")
    finally:
        if d:
            d.close()
    return res


def tasks(tier, seed):
    return [dict(id=i, seed=seed, n=100 if tier == "quick" else 500) for i in range(16 if tier == "quick" else 128)]


def shrink(c):
    s = c.get("seq", [])
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(c, seq=s[:i] + s[i + 1:])
    for i, q in enumerate(s):
        if q["kind"] == "nuc" and len(q["e"]) > 1:
            for k in range(len(q["e"])):
                yield dict(c, seq=s[:i] + [dict(q, e=[q["e"][k]])] + s[i + 1:])
