"""Seeds whose events are out of the ordinary (extreme excitation energies, spins, masses, kinetic energies). The scission
fragments of thousands of seeds are generated without their decay and the ends of each distribution are kept. This only
chooses inputs: when the scan cannot be built against a rewritten repository, random seeds are used instead."""
import drv, intern


def scan(iso, e, s0, n):
    if not intern.ready("i_scan"):
        return None
    try:
        with drv.Driver({}, exe="i_scan", timeout=60) as d:
            t = d.cmd("scan %d %r %d %d" % (iso, e, s0, n))
        return [tuple(float(x) for x in r.split()) for r in t.split(";") if r.strip()]
    except (drv.Died, ValueError):
        return None


# seed, Zl, Al, Ul, Jl, TKE, Zh, Ah, Uh, Jh
KEYS = [lambda r: r[3], lambda r: r[8], lambda r: -r[3], lambda r: -r[8], lambda r: r[4], lambda r: r[9], lambda r: r[5], lambda r: -r[5],
        lambda r: r[2], lambda r: -r[2], lambda r: r[1], lambda r: r[6], lambda r: r[3] + r[8], lambda r: max(r[3], r[8]),
        lambda r: -abs(r[3] - 6.0), lambda r: -abs(r[8] - 6.0), lambda r: r[3] - 2 * r[4], lambda r: r[8] - 2 * r[9]]


def seeds(iso, e, r, k, n=4000):
    """k seeds, most of them extreme in one of KEYS"""
    s0 = r.randint(1, 2 ** 31 - 2 - n)
    rows = scan(iso, e, s0, n)
    if not rows:
        return [r.randint(1, 2 ** 31 - 2) for _ in range(k)]
    best = [sorted(rows, key=f, reverse=True) for f in KEYS]
    out, i = [], 0
    while len(out) < k and i < len(rows):
        for b in best:
            s = int(b[i][0])
            if s not in out:
                out.append(s)
        i += 1
    return out[:k]


def quiet(iso, e, r, k):
    """a seed from which k successive events have little excitation energy in one of the fragments"""
    n = 1500 if e < 5.0 else 200
    s0 = r.randint(1, 2 * 10 ** 9)
    q = r.choice([3, 8])
    rows = scan(iso, e, s0, n)
    if not rows or len(rows) < n:
        return None
    return s0 + min(range(n - k), key=lambda i: sum(rows[i + j][q] for j in range(k)))
