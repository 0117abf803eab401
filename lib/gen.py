"""Generators of reactions, energies, event cases."""
import math
SF = [94238, 94240, 94242, 94244, 98252, 98254]
NF = [92233, 92234, 92235, 92238, 93237, 94239, 94241]
SPECIAL_E = [1e-11, 2.53e-8, 1e-6, 1e-3, 0.5, 1.0, 5.0, 6.0, 14.0, 14.1, 19.999, 20.0]


def energy(r):
    k = r.random()
    if k < 0.15:
        return r.choice(SPECIAL_E)
    if k < 0.3:
        return 10 ** r.uniform(-9, math.log10(20.0))
    if k < 0.45:
        return min(20.0, max(1e-9, r.randint(1, 20) + r.choice([-1e-9, 0.0, 1e-9, -0.001, 0.001])))
    if k < 0.6:
        return r.uniform(4.5, 7.5)
    return r.uniform(1e-6, 20.0)


def reaction(r):
    if r.random() < 0.3:
        return r.choice(SF), 0.0
    return r.choice(NF), round_e(energy(r))


def round_e(e):
    return float("%.6g" % e) if e < 20 else 20.0


def compound(iso, e):
    z, a = divmod(abs(iso), 1000)
    return (z, a) if e == 0.0 else (z, a + 1)


def stratified(r, n):
    """n reactions that together touch every supported isotope and every energy region"""
    out = []
    i = 0
    while len(out) < n:
        iso = (SF + NF)[i % 13]
        if iso in SF:
            out.append((iso, 0.0))
        else:
            j = i // 13
            if j % 2 == 0:
                band = (j // 2) % 10
                out.append((iso, round_e(r.uniform(2.0 * band + 1e-6, 2.0 * band + 2.0))))
            else:
                out.append((iso, round_e(energy(r))))
        i += 1
    r.shuffle(out)
    return out
