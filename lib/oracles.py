"""Per-event oracles (public observables only)."""
import math
import gen
from phys import *


def prefission_chain(ev):
    """follow the pre-fission neutrons: returns (list of cm energies, momentum of the fissioning nucleus, its A)"""
    z, a = gen.compound(ev.iso, ev.E)
    p = [0.0, 0.0, math.sqrt(2 * MN * ev.E)]
    eps = []
    for (E, u, v, w) in ev.pre:
        vl = math.sqrt(2 * E / MN)
        vv = (vl * u, vl * v, vl * w)
        M = mass_tab(z, a)
        vc = [vv[k] - p[k] / M for k in range(3)]
        eps.append(0.5 * MN * dot(vc, vc))
        p = [p[k] - MN * vv[k] for k in range(3)]
        a -= 1
    return eps, p, a


def nucleons(ev, case, sch, res):
    z, a = gen.compound(ev.iso, ev.E)
    l, h = ev.fr
    def bad(sig, msg):
        res.fail(sig, "%s (iso=%d E=%g seed=%d: LF Z=%d A=%d nu=%d, HF Z=%d A=%d nu=%d, pre=%d)" % (
            msg, case["iso"], case["E"], case["seed"], l.Z, l.A, l.nu, h.Z, h.A, h.nu, ev.npre), case)
    if ev.iso != case["iso"] or ev.E != case["E"]:
        bad("reaction-echo", "event reports another reaction (%d, %r)" % (ev.iso, ev.E))
    if l.Z + h.Z != z:
        bad("charge", "Z_L + Z_H != %d" % z)
    if l.A + h.A + ev.npre != a:
        bad("mass", "A_L + A_H + pre-fission neutrons != %d" % a)
    if l.A > h.A:
        bad("order", "light fragment heavier than heavy fragment")
    for f in ev.fr:
        if not (0 < f.Z < f.A) or f.nu < 0 or f.nug < 0 or f.A - f.nu <= f.Z:
            bad("fragment-range", "unphysical fragment or residue")
    if ev.nn != l.nu + h.nu or ev.ng != l.nug + h.nug:
        bad("multiplicity-sum", "total multiplicities %d/%d are not the sums over fragments" % (ev.nn, ev.ng))
    if not 0 <= ev.npre <= 3 or (ev.E == 0.0 and ev.npre):
        bad("prefission-range", "pre-fission multiplicity out of range")


def energy_balance(ev, case, sch, res):
    z, a = gen.compound(ev.iso, ev.E)
    l, h = ev.fr
    sn = 0.0 if ev.E == 0 else sn_tab(z, a)
    eps, _, _ = prefission_chain(ev)
    avail = me_tab(z, a) + ev.E + sn - me_tab(l.Z, l.A) - me_tab(h.Z, h.A) - ev.npre * me_tab(0, 1) - sum(eps)
    used = l.KE + h.KE + l.U + h.U
    tol = 1e-5 if ev.npre == 0 else 0.026 * ev.npre + 0.001
    d = avail - used
    res.add("_balance")
    if not (abs(d) <= tol) or not all(math.isfinite(x) for x in (l.KE, h.KE, l.U, h.U)):
        res.fail("balance" if ev.npre == 0 else "balance-prefission",
                 "TKE+TXE=%.6f MeV but %.6f MeV are available (diff %.6f, %d pre-fission neutrons %s; iso=%d E=%g seed=%d)" % (
                     used, avail, d, ev.npre, ["%.4f" % x for x in eps], case["iso"], case["E"], case["seed"]), case)
    for f in ev.fr:
        if f.U < 0 or f.KE <= 0:
            res.fail("negative-energy", "U=%g KE=%g (iso=%d E=%g seed=%d)" % (f.U, f.KE, case["iso"], case["E"], case["seed"]), case)
    ml, mh = mass_tab(l.Z, l.A), mass_tab(h.Z, h.A)
    if abs(l.KE * ml - h.KE * mh) > 1e-6 * l.KE * ml:
        res.fail("ke-sharing", "KE_L*M_L=%.9g differs from KE_H*M_H=%.9g (iso=%d E=%g seed=%d)" % (
            l.KE * ml, h.KE * mh, case["iso"], case["E"], case["seed"]), case)


def momentum_balance(ev, case, sch, res):
    l, h = ev.fr
    eps, pc, ac = prefission_chain(ev)
    tot = [l.pre[k] + h.pre[k] - pc[k] for k in range(3)]
    where = "iso=%d E=%g seed=%d npre=%d" % (case["iso"], case["E"], case["seed"], ev.npre)
    if max(abs(x) for x in tot) > 1e-4 or not all(math.isfinite(x) for x in l.pre + h.pre):
        res.fail("momentum", "p_L + p_H differs from the momentum left by the pre-fission neutrons by %s MeV/c (%s)" % (tot, where), case)
    ml, mh = mass_tab(l.Z, l.A), mass_tab(h.Z, h.A)
    ke = dot(l.pre, l.pre) / (2 * ml) + dot(h.pre, h.pre) / (2 * mh)
    tke = l.KE + h.KE
    z0, _ = gen.compound(ev.iso, ev.E)
    # the fragments' kinetic energies are given in the frame of the fissioning nucleus: allow the cross term
    # left by mass defects, and the motion of that nucleus itself
    mc = mass_tab(z0, ac)
    tol = 2.0 * 210.0 / mh * norm(h.pre) * norm(pc) / mc + dot(pc, pc) / (2 * mc) + 1e-4
    if abs(ke - tke) > tol:
        res.fail("ke-momentum", "kinetic energy from momenta %.6f MeV, reported TKE %.6f MeV (%s)" % (ke, tke, where), case)
    if ev.E == 0.0:
        for f, m in ((l, ml), (h, mh)):
            k = dot(f.pre, f.pre) / (2 * m)
            if abs(k - f.KE) > 1e-6 * f.KE:
                res.fail("ke-momentum-frag", "fragment KE %.6f but p^2/2M = %.6f (%s)" % (f.KE, k, where), case)
    for (E, u, v, w) in ev.pre:
        if not E >= 0 or abs(u * u + v * v + w * w - 1) > 1e-9:
            res.fail("pre-dir", "pre-fission neutron E=%r dir=(%r,%r,%r) (%s)" % (E, u, v, w, where), case)


def emission_kinematics(ev, case, sch, res):
    where = "iso=%d E=%g seed=%d" % (case["iso"], case["E"], case["seed"])
    for k in range(2):
        f = ev.fr[k]
        p = list(f.pre)
        a = f.A
        for (E, u, v, w, age, ec, uc, vc, wc) in ev.neutrons(k):
            if not (E > 0 and ec > 0) or abs(u * u + v * v + w * w - 1) > 1e-9 or abs(uc * uc + vc * vc + wc * wc - 1) > 1e-9:
                res.fail("neutron-direction", "neutron E=%r Ecm=%r |dir|^2=%r |dircm|^2=%r (%s)" % (
                    E, ec, u * u + v * v + w * w, uc * uc + vc * vc + wc * wc, where), case)
                return
            m = mass_tab(f.Z, a)
            sc = math.sqrt(2 * ec / MN)
            sl = math.sqrt(2 * E / MN)
            vl = (sl * u, sl * v, sl * w)
            ex = [sc * x + p[i] / m for i, x in enumerate((uc, vc, wc))]
            if max(abs(ex[i] - vl[i]) for i in range(3)) > 1e-9 + 1e-7 * sl:
                res.fail("neutron-boost", "lab neutron velocity %s, expected cm velocity + fragment velocity = %s (fragment %d, emitted from A=%d; %s)" % (
                    vl, ex, k, a, where), case)
                return
            p = [p[i] - MN * vl[i] for i in range(3)]
            a -= 1
        d = [p[i] - f.post[i] for i in range(3)]
        if max(abs(x) for x in d) > 1e-6 * (1 + norm(f.pre)):
            res.fail("recoil", "post-emission momentum of fragment %d differs from pre-emission minus the neutrons' momenta by %s MeV/c (%s)" % (k, d, where), case)
        for (E, u, v, w, age) in ev.photons(k):
            if not E > 0 or abs(u * u + v * v + w * w - 1) > 1e-9:
                res.fail("photon-direction", "photon E=%r |dir|^2=%r (%s)" % (E, u * u + v * v + w * w, where), case)
        doppler(ev, k, case, sch, res, where)
        # kinetic energy after emission
        kp = dot(f.post, f.post)
        right = kp / (2 * mass_tab(f.Z, f.A - f.nu))
        if abs(f.KEpost - right) > 1e-6 * right:
            pre_mass = kp / (2 * mass_tab(f.Z, f.A))
            if f.nu > 0 and abs(f.KEpost - pre_mass) < 1e-9 * pre_mass:
                res.fail("kepost-premass", "KE after emission uses the pre-emission mass (fragment %d nu=%d; %s)" % (k, f.nu, where), case)
            else:
                res.fail("kepost", "KE after emission %.6f, p^2/2M = %.6f (fragment %d nu=%d; %s)" % (f.KEpost, right, k, f.nu, where), case)


def doppler(ev, k, case, sch, res, where):
    """lab photon energies are the emitter-frame energies (whose sum is fixed by the de-excitation) Doppler-shifted by
    the fragment's velocity. Judged where the sum is known: no window, nothing lost to conversion."""
    f = ev.fr[k]
    if case["tw"] > 0 or not f.nug:
        return
    lv0, lvr = frag_levels(sch, f.Z, f.A), frag_levels(sch, f.Z, f.A - f.nu)
    if any(c > 0 for l in lvr for (_, _, c) in l["g"]) or (f.nu == 0 and (discrete_start(f.U, lv0) is not None or boundary(f.U, lv0))):
        return
    want = f.U - sum(x[5] for x in ev.neutrons(k)) - sum(sn_decay(f.Z, f.A - j) for j in range(f.nu))
    m = mass_tab(f.Z, f.A - f.nu)
    be = [x / m for x in f.post]
    b = norm(be)
    g = math.sqrt(1 - b * b)
    true = sum(E * (1 - (be[0] * u + be[1] * v + be[2] * w)) / g for (E, u, v, w, age) in ev.photons(k))
    res.add("doppler")
    if abs(true - want) <= tol_e(f.nu):
        return
    xax = sum(photon_cm(ev, k))
    if abs(xax - want) <= tol_e(f.nu):
        res.fail("photon-doppler-axis", "photon energies of fragment %d are Doppler-shifted with the angle to the x axis instead of the angle to the fragment: emitter-frame sum %.6f MeV, %.6f required (%s)" % (
            k, true, want, where), case)
    else:
        res.fail("photon-doppler", "lab photon energies of fragment %d, Doppler shift undone, add up to %.6f MeV, %.6f required (%s)" % (k, true, want, where), case)


def photon_cm(ev, k):
    """cm energies of the photons of fragment k: the lab energy undone by the Doppler factor"""
    f = ev.fr[k]
    b = norm(f.post) / mass_tab(f.Z, f.A - f.nu)
    return [E * (1 - b * u) / math.sqrt(1 - b * b) for (E, u, v, w, age) in ev.photons(k)]


# ---- de-excitation ------------------------------------------------------------------------------------------

def frag_levels(sch, z, a):
    lv = sch.get(1000 * z + a) if sch else None
    if not lv:
        import levels as L
        lv = L.default_scheme_level(z, a)
    return lv


def tol_e(nu):
    """single-precision mass excesses enter the separation energies once a neutron is out"""
    return 3e-5 if nu else 2e-6


def discrete_start(U, lv):
    """None: the fragment starts in the continuum; else the energies of the possible (nearest) starting levels"""
    el = lv[-1]["E"]
    if el == 0.0:
        return [0.0] if U < 0.025 + 1e-9 else None
    if U >= el + EBIN + 1e-9:
        return None
    d = min(abs(U - l["E"]) for l in lv)
    near = [l["E"] for l in lv if abs(abs(U - l["E"]) - d) < 1e-6]
    return near


def boundary(U, lv):
    """rounding decides whether the fragment starts in the continuum"""
    el = lv[-1]["E"]
    return abs(U - (el + EBIN)) < 1e-7 if el > 0 else abs(U - 0.025) < 1e-7


def deexcitation(ev, case, sch, res):
    where = "iso=%d E=%g seed=%d tw=%g" % (case["iso"], case["E"], case["seed"], case["tw"])
    for k in range(2):
        f = ev.fr[k]
        eps = sum(x[5] for x in ev.neutrons(k))
        sn = sum(sn_decay(f.Z, f.A - j) for j in range(f.nu))
        gs = photon_cm(ev, k)
        left = f.U - eps - sn - sum(gs)
        lv0 = frag_levels(sch, f.Z, f.A)
        lvr = frag_levels(sch, f.Z, f.A - f.nu)
        st = None if f.nu else discrete_start(f.U, lv0)
        tol = tol_e(f.nu)
        msg = "fragment %d (Z=%d A=%d U=%.6f): neutrons %.6f + separation %.6f + photons %.6f" % (k, f.Z, f.A, f.U, eps, sn, sum(gs))
        cands = [left] if st is None else [left + (s - f.U) for s in st]
        if boundary(f.U, lv0):
            cands.append(left)
        lossy = any(c > 0 for l in lvr for (_, _, c) in l["g"])
        if case["tw"] > 0:
            stops = [l["E"] for i, l in enumerate(lvr) if i == 0 or l["T"] > 0]
        else:
            stops = [0.0]
        if not lossy:
            ok = any(abs(c - s) <= tol for c in cands for s in stops)
        else:
            ok = any(-tol <= c <= lvr[-1]["E"] + tol for c in cands)
        if not ok:
            res.fail("closure", "%s leave %.6f MeV (%s; %s)" % (
                msg, left, "discrete start" if st is not None else "continuum start", where), case)
        res.add("fragments")
        if st is not None:
            res.add("discrete_start")
        if lossy:
            res.add("with_conversion")


def chain_ok(E0, gs, lv, st, tw, tol, nu):
    """is the photon list a possible cascade: continuum photons, entry into a listed level, listed transitions
    (internally converted ones invisible), stop in the ground state (or in a level with a half-life when windowed)?"""
    import levels as L
    br = L.model(lv)
    n = len(gs)
    el = lv[-1]["E"]
    import functools

    @functools.lru_cache(None)
    def disc(i, j):
        """from level i with photons j.. left"""
        if j == n and (i == 0 or (tw > 0 and lv[i]["T"] > 0)):
            return True
        if i == 0:
            return False
        for (f, b, gr) in br[i]:
            if b <= 0:
                continue
            if gr < 1.0 and disc(f, j):
                return True
            if j < n and abs(lv[i]["E"] - lv[f]["E"] - gs[j]) <= tol and disc(f, j + 1):
                return True
        return False
    if st is not None:
        for i, l in enumerate(lv):
            if any(abs(l["E"] - s) < 1e-9 for s in st) and disc(i, 0):
                return True
        return False
    E = E0
    for k in range(0, n + 1):
        for i, l in enumerate(lv):
            if abs(E - l["E"]) <= tol and disc(i, k):
                return True
        if k < n:
            # below the highest level only listed transitions are possible; a photon that preceded the last
            # neutron is not constrained by the levels of the residue
            if nu == 0 and k > 0 and E < el - tol:
                return False
            E -= gs[k]
    return False


def discrete_chain(ev, case, sch, res):
    where = "iso=%d E=%g seed=%d tw=%g" % (case["iso"], case["E"], case["seed"], case["tw"])
    for k in range(2):
        f = ev.fr[k]
        E0 = f.U - sum(x[5] for x in ev.neutrons(k)) - sum(sn_decay(f.Z, f.A - j) for j in range(f.nu))
        gs = photon_cm(ev, k)
        lvr = frag_levels(sch, f.Z, f.A - f.nu)
        st = None if f.nu else discrete_start(f.U, lvr)
        tol = tol_e(f.nu)
        ok = chain_ok(E0, gs, lvr, st, case["tw"], tol, f.nu) or (boundary(f.U, lvr) and chain_ok(E0, gs, lvr, None, case["tw"], tol, f.nu))
        res.add("fragments")
        if len(lvr) > 1:
            res.add("with_levels")
        if not ok:
            res.fail("chain", "photons %s of fragment %d (residue Z=%d A=%d, %.6f MeV after its neutrons) are no cascade through its %d levels %s (%s)" % (
                ["%.6f" % x for x in gs], k, f.Z, f.A - f.nu, E0, len(lvr), ["%.6f" % l["E"] for l in lvr][:12], where), case)


def timed_chain_ok(E0, gs, ages, lv, st, t0, tw, tol, nu):
    """chain_ok with clocks: an age may differ from the previous one only when a level with a half-life was left
    in between (including converted, invisible steps)"""
    import levels as L, functools
    br = L.model(lv)
    n = len(gs)
    el = lv[-1]["E"]
    eps = 1e-13 * (abs(t0) + (max(ages) if ages else 0.0))

    @functools.lru_cache(None)
    def disc(i, j, late):
        late = late or lv[i]["T"] > 0
        if j == n and (i == 0 or (tw > 0 and lv[i]["T"] > 0)):
            return True
        if i == 0:
            return False
        prev = ages[j - 1] if j else t0
        for (f, b, gr) in br[i]:
            if b <= 0:
                continue
            if gr < 1.0 and disc(f, j, late):
                return True
            if j < n and abs(lv[i]["E"] - lv[f]["E"] - gs[j]) <= tol:
                if (ages[j] >= prev - eps if late else abs(ages[j] - prev) <= eps) and disc(f, j + 1, False):
                    return True
        return False
    if st is not None:
        return any(any(abs(l["E"] - s) < 1e-9 for s in st) and disc(i, 0, False) for i, l in enumerate(lv))
    E = E0
    for k in range(0, n + 1):
        if any(abs(E - l["E"]) <= tol and disc(i, k, False) for i, l in enumerate(lv)):
            return True
        if k < n:
            if (nu == 0 and k > 0 and E < el - tol) or abs(ages[k] - t0) > eps:
                return False
            E -= gs[k]
    return False


def timing(ev, case, sch, res):
    t, tw = case["t"], case["tw"]
    where = "iso=%d E=%g seed=%d t=%g tw=%g" % (case["iso"], case["E"], case["seed"], t, tw)
    for x in ev.n:
        if x[4] != t:
            res.fail("neutron-age", "neutron age %r, start time %r (%s)" % (x[4], t, where), case)
    for k in range(2):
        f = ev.fr[k]
        ages = [x[4] for x in ev.photons(k)]
        prev = t
        for a in ages:
            if not a >= prev:
                res.fail("age-order", "photon ages %s of fragment %d decrease or precede the start time %r (%s)" % (ages, k, t, where), case)
                break
            prev = a
            if tw > 0 and a > t + tw * (1 + 1e-12) + 1e-15 * t:
                res.fail("window", "photon of age %r outside the window %r (%s)" % (a, tw, where), case)
                break
        E0 = f.U - sum(x[5] for x in ev.neutrons(k)) - sum(sn_decay(f.Z, f.A - j) for j in range(f.nu))
        gs = photon_cm(ev, k)
        lvr = frag_levels(sch, f.Z, f.A - f.nu)
        st = None if f.nu else discrete_start(f.U, lvr)
        tol = tol_e(f.nu)
        ok = timed_chain_ok(E0, gs, ages, lvr, st, t, tw, tol, f.nu) or (
            boundary(f.U, lvr) and timed_chain_ok(E0, gs, ages, lvr, None, t, tw, tol, f.nu))
        res.add("fragments")
        if any(a > t for a in ages):
            res.add("with_delay")
        if not ok:
            sig = "timed-chain" if chain_ok(E0, gs, lvr, st, tw, tol, f.nu) else "chain"
            res.fail(sig, "photons %s with ages %s of fragment %d (residue Z=%d A=%d, %.6f MeV) are no timed cascade through levels %s (%s)" % (
                ["%.6f" % x for x in gs], ["%.4g" % (a - t) for a in ages], k, f.Z, f.A - f.nu, E0,
                ["%.6f/%g" % (l["E"], l["T"]) for l in lvr][:12], where), case)
