"""Yields-only runs: generate, parse, judge."""
import os, math
import drv, core, gen
from core import Result, rng_for
from phys import *


class YF:
    __slots__ = ("Z", "A", "KE", "U", "J", "P", "p")

    def __init__(self, line):
        f = line.split()
        if len(f) != 9:
            raise ValueError("yields line with %d fields: %r" % (len(f), line))
        self.Z, self.A = int(f[0]), int(f[1])
        self.KE, self.U, self.J = float(f[2]), float(f[3]), float(f[4])
        self.P = int(f[5])
        self.p = tuple(float(x) for x in f[6:9])


def parse(path):
    ls = [l for l in open(path).read().split("\n") if l.strip()]
    if len(ls) % 2:
        raise ValueError("odd number of lines in yields file")
    return [(YF(ls[i]), YF(ls[i + 1])) for i in range(0, len(ls), 2)]


def run(d, iso, e, n, seed, name="y.out"):
    p = os.path.join(d.cwd, name)
    if os.path.exists(p):
        os.unlink(p)
    d.cmd("yields %d %r %d %d %s" % (iso, e, n, seed, name))
    return parse(p)


def make_tasks(n_runs, per_run, seed, tag, reactions=None):
    r = rng_for(tag, "yields", seed)
    rx = (reactions or gen.stratified)(r, n_runs)
    return [dict(yields=True, iso=iso, E=e, n=per_run, seed=r.randint(1, 2 ** 31 - 2)) for iso, e in rx]


def run_task(task, oracle):
    res = Result()
    iso, e, n, seed = task["iso"], task["E"], task["n"], task["seed"]
    case = dict(yields=True, iso=iso, E=e, n=n, seed=seed)
    try:
        with drv.Driver({}) as d:
            ys = run(d, iso, e, n, seed)
    except drv.Died as x:
        res.case()
        res.fail("no-yields", "no yields for a supported input %s E=%r seed=%d: %s" % (iso, e, seed, str(x)[:300]), case)
        return res
    except (ValueError, OSError) as x:
        res.case()
        res.fail("yields-file", "malformed yields output for %s E=%r seed=%d: %s" % (iso, e, seed, x), case)
        return res
    if len(ys) != n:
        res.fail("yields-count", "%d events in the yields file, %d requested (%s E=%r seed=%d)" % (len(ys), n, iso, e, seed), case)
    for i, (l, h) in enumerate(ys):
        oracle(l, h, iso, e, i, case, res)
        res.case(key=("y", iso, e, seed, i), nontrivial=True,
                 sample="yields iso=%d E=%g seed=%d event %d: LF(%d,%d) HF(%d,%d)" % (iso, e, seed, i, l.Z, l.A, h.Z, h.A) if i == 0 else None)
    res.add("yields_events", len(ys))
    return res


def replay(case, oracle):
    return run_task(case, oracle).fails


def shrink(case):
    n = case["n"]
    for m in (1, 2, 5, n // 4, n // 2):
        if 0 < m < n:
            yield dict(case, n=m)
    for s in (1, 2, 3, 4):
        if case["seed"] > s:
            yield dict(case, seed=s)


def _bad(res, case, sig, iso, e, i, l, h, msg):
    res.fail(sig, "%s (yields iso=%d E=%g seed=%d event %d: LF Z=%d A=%d KE=%g U=%g, HF Z=%d A=%d KE=%g U=%g)" % (
        msg, iso, e, case["seed"], i, l.Z, l.A, l.KE, l.U, h.Z, h.A, h.KE, h.U), case)


def nucleons(l, h, iso, e, i, case, res):
    z, a = gen.compound(iso, e)
    if l.Z + h.Z != z:
        _bad(res, case, "yields-charge", iso, e, i, l, h, "charges do not add up to %d" % z)
    pre = a - l.A - h.A
    if not 0 <= pre <= 3 or (e == 0.0 and pre):
        _bad(res, case, "yields-mass", iso, e, i, l, h, "masses do not add up to %d minus 0..3 pre-fission neutrons" % a)
    if l.A > h.A or not (0 < l.Z < l.A and 0 < h.Z < h.A):
        _bad(res, case, "yields-order", iso, e, i, l, h, "light fragment heavier than heavy fragment, or unphysical fragment")


def energy(l, h, iso, e, i, case, res):
    z, a = gen.compound(iso, e)
    pre = a - l.A - h.A
    sn = 0.0 if e == 0 else sn_tab(z, a)
    avail = me_tab(z, a) + e + sn - me_tab(l.Z, l.A) - me_tab(h.Z, h.A) - pre * me_tab(0, 1)
    used = l.KE + h.KE + l.U + h.U
    tol = 2.5e-3          # six printed digits
    if pre == 0:
        ok = abs(avail - used) <= tol
    else:                 # the energies of the pre-fission neutrons are not in the file: they can only remove energy
        ok = -tol - 0.026 * pre <= avail - used <= e + 0.1
    if not ok:
        _bad(res, case, "yields-balance", iso, e, i, l, h, "TKE+TXE=%.4f MeV, %.4f MeV available (%d pre-fission neutrons)" % (used, avail, pre))
    if not (l.U >= 0 and h.U >= 0 and l.KE > 0 and h.KE > 0):
        _bad(res, case, "yields-negative", iso, e, i, l, h, "negative energy")
    ml, mh = mass_tab(l.Z, l.A), mass_tab(h.Z, h.A)
    if abs(l.KE * ml - h.KE * mh) > 2e-5 * l.KE * ml:
        _bad(res, case, "yields-ke-sharing", iso, e, i, l, h, "kinetic energies not shared inversely to the masses")


def momentum(l, h, iso, e, i, case, res):
    z, a = gen.compound(iso, e)
    pre = a - l.A - h.A
    tot = [l.p[k] + h.p[k] for k in range(3)]
    if not all(math.isfinite(x) for x in l.p + h.p):
        _bad(res, case, "yields-momentum-nan", iso, e, i, l, h, "undefined momentum")
        return
    pz = math.sqrt(2 * MN * e)
    if pre == 0 and max(abs(tot[0]), abs(tot[1]), abs(tot[2] - pz)) > 0.021:
        _bad(res, case, "yields-momentum", iso, e, i, l, h, "p_L + p_H = %s MeV/c, expected (0,0,%.3f)" % (tot, pz))
    ml, mh = mass_tab(l.Z, l.A), mass_tab(h.Z, h.A)
    ke = dot(l.p, l.p) / (2 * ml) + dot(h.p, h.p) / (2 * mh)
    ptot = norm(tot)
    tol = 2.0 * 210.0 / mh * norm(h.p) * ptot / (ml + mh) + ptot * ptot / (2 * (ml + mh)) + 5e-3
    if abs(ke - l.KE - h.KE) > tol:
        _bad(res, case, "yields-ke-momentum", iso, e, i, l, h, "kinetic energy from momenta %.4f MeV, reported %.4f" % (ke, l.KE + h.KE))
