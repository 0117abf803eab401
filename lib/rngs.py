"""C29: the random streams. Histories of operations on several generators against a model in which a generator is a pair
(seed, number of draws), and statistical tests of the streams, along one seed and across consecutive seeds."""
import math
import numpy as np
from scipy import stats
import drv
from core import Result, rng_for

ALPHA = 1e-9
NREF = 400


def a_seed(r):
    return r.choice([r.randint(1, 100), r.randint(1, 10 ** 6), r.randint(1, 2 ** 31 - 1), r.randint(-2 ** 31, 2 ** 31 - 1), r.choice([0, 1, 2, -1, 5489, 2 ** 31 - 1, -2 ** 31, 65536, 65537, 2 ** 24])])


def history(r):
    seeds = [a_seed(r) for _ in range(r.randint(1, 4))]
    pick = lambda: r.choice(seeds)
    ops, live = [], set()
    for _ in range(r.randint(3, 14)):
        o = r.choice(["new", "seed", "copy", "draw", "draw", "draw", "use", "useref", "usefn", "lib", "lib"])
        if o == "new" or (not live and o not in ("usefn",)):
            k = r.randint(0, 3)
            ops.append(["new", k, pick()])
            live.add(k)
        elif o == "seed":
            ops.append([o, r.choice(sorted(live)), pick()])
        elif o == "copy":
            k = r.randint(0, 3)
            ops.append([o, k, r.choice(sorted(live))])
            live.add(k)
        elif o == "draw":
            ops.append([o, r.choice(sorted(live)), r.randint(1, 12)])
        elif o in ("use", "useref"):
            ops.append([o, r.choice(sorted(live))])
        elif o == "usefn":
            ops.append([o, r.randint(0, 1), pick()])
        elif any(x[0].startswith("use") for x in ops):
            ops.append([o, r.randint(1, 12)])
    return ops


def model(ops):
    """the draws of the history as (seed, index) pairs"""
    gens, lib, fn, out = {}, None, None, []
    for op in ops:
        o, a = op[0], op[1:]
        if o == "new":
            gens[a[0]] = [a[1], 0]
        elif o == "seed":
            gens[a[0]][:] = [a[1], 0]
        elif o == "copy":
            gens[a[0]] = list(gens[a[1]])
        elif o == "draw":
            g = gens[a[0]]
            out += [(g[0], g[1] + i) for i in range(a[1])]
            g[1] += a[1]
        elif o == "use":
            lib = list(gens[a[0]])      # the library keeps a generator of its own
        elif o == "useref":
            lib = gens[a[0]]
        elif o == "usefn":
            fn = fn or [0, 0]
            fn[:] = [a[1], 0]
            lib = fn
        elif o == "lib":
            out += [(lib[0], lib[1] + i) for i in range(a[0])]
            lib[1] += a[0]
    return out


def nums(t):
    return [float(x) for x in t.split()[1:]]


def run_hist(res, case):
    ops = case["ops"]
    want = model(ops)
    ref = {}
    with drv.Driver(None, exe="i_rng") as d:       # a process of its own gives the stream of each seed
        for s in {s for s, _ in want}:
            ref[s] = nums(d.cmd("new 0 %d seed 0 %d draw 0 %d" % (s, s, 1 + max(i for q, i in want if q == s))))
    with drv.Driver(None, exe="i_rng") as d:
        got = nums(d.cmd(" ".join(str(x) for op in ops for x in op)))
    if len(got) != len(want):
        res.fail("count", "%d numbers drawn, %d delivered after %r" % (len(want), len(got), ops), case)
        return
    for k, (g, (s, i)) in enumerate(zip(got, want)):
        if not 0 <= g < 1:
            res.fail("range", "number %d of seed %d is %r" % (i, s, g), case)
            return
        if g != ref[s][i]:
            res.fail("history", "after %s draw %d is %.17g; number %d of the stream of seed %d is %.17g" % (ops, k, g, i, s, ref[s][i]), case)
            return
    res.case(key=("h", str(ops)), nontrivial=len(want) > 3 and len(ops) > 3, sample="history %s" % ops if len(ops) < 7 else None)


def tests(x, name):
    """(label, p, text) for a matrix of numbers: rows are streams, columns are positions"""
    x = np.asarray(x)
    n = x.size
    out = []

    def chi(lab, c, txt):
        e = c.sum() / c.size
        out.append((lab, stats.chi2.sf(((c - e) ** 2 / e).sum(), c.size - 1), txt))
    flat = x.ravel()
    chi("uniform", np.histogram(flat, bins=200, range=(0, 1))[0], "%s: the numbers are not uniform" % name)
    for k in (1, 2, 3, 7):
        for axis, what in ((1, "along a stream"), (0, "across consecutive seeds")):
            if x.shape[axis] > k:
                a, b = (x[:, :-k], x[:, k:]) if axis else (x[:-k], x[k:])
                chi("pairs%d-%d" % (axis, k), np.histogram2d(a.ravel(), b.ravel(), bins=20, range=((0, 1), (0, 1)))[0], "%s: numbers %d apart %s are correlated" % (name, k, what))
    low = np.floor(flat * 2 ** 20) % 64
    chi("low", np.bincount(low.astype(int), minlength=64), "%s: the lower digits are not uniform" % name)
    if x.shape[0] > 50:
        for j in range(min(4, x.shape[1])):
            chi("head%d" % j, np.histogram(x[:, j], bins=40, range=(0, 1))[0], "%s: number %d of the streams is not uniform over the seeds" % (name, j))
    return out


def run_stat(res, case):
    kind, s0, n, m = case["stat"]
    with drv.Driver(None, exe="i_rng") as d:
        if kind == "long":
            x = np.array(nums(d.cmd("new 0 %d draw 0 %d" % (s0, n)))).reshape(1, -1)
        else:
            x = np.array(nums(d.cmd("heads %d %d %d" % (s0, n, m)))).reshape(n, m)
    name = ("%d numbers of seed %d" % (n, s0)) if kind == "long" else "the first %d numbers of %d seeds from %d" % (m, n, s0)
    if not ((x >= 0) & (x < 1)).all():
        res.fail("range", "%s: a number outside [0,1)" % name, case)
        return
    dup = x.size - np.unique(x).size
    # repeated values: a stream of 32-bit numbers repeats a value n^2/2^33 times
    if dup > 10 + 3 * x.size ** 2 / 2 ** 33:
        res.fail("repeats", "%s: %d values are repeated" % (name, dup), case)
    if kind == "heads" and np.unique(x[:, :2], axis=0).shape[0] < n:
        res.fail("same-streams", "%s: different seeds start the same stream" % name, case)
    for lab, p, txt in tests(x, name):
        if p < ALPHA:
            res.fail("stat-" + lab, "%s (p = %.2g)" % (txt, p), case)
    res.add("numbers_tested", x.size)
    res.case(key=tuple(case["stat"]), sample=name)


def run_far(res, case):
    """seeds that differ only in one bit, or by a power of two, or by sign"""
    base, vs = case["far"]
    with drv.Driver(None, exe="i_rng") as d:
        h = {s: tuple(nums(d.cmd("new 0 %d draw 0 4" % s))) for s in [base] + vs}
    for s in vs:
        if s != base and h[s] == h[base]:
            res.fail("same-streams", "seeds %d and %d give the same stream" % (base, s), case)
    res.case(key=("far", base), sample="seed %d against %d others" % (base, len(vs)))


def run_events(res, case):
    """events of consecutive numbers are different and uncorrelated"""
    iso, e, s0, n = case["events"]
    rows = []
    with drv.Driver({}) as d:
        for i in range(n):
            ev = d.event(iso, e, s0 + i)
            l, h = ev.fr
            rows.append((h.A, l.KE + h.KE, l.U, h.J, len(ev.n), len(ev.g)))
    x = np.array(rows, float)
    same = sum(1 for i in range(n - 1) if rows[i] == rows[i + 1])
    name = "%d events of %d at %g MeV from number %d" % (n, iso, e, s0)
    if same:
        res.fail("same-events", "%s: %d consecutive events are the same" % (name, same), case)
    if len({r for r in rows}) < n:
        res.fail("same-events", "%s: events are repeated" % name, case)
    for lag in (1, 2):
        for j, w in enumerate(("heavy mass", "TKE", "light excitation energy", "heavy spin")):
            a, b = x[:-lag, j], x[lag:, j]
            c = stats.spearmanr(a, b).statistic
            if abs(c) * math.sqrt(n) > 6.2:
                res.fail("correlated", "%s: rank correlation of the %s with that %d events later is %.3f" % (name, w, lag, c), case)
    res.case(key=("ev", iso, e, s0), sample=name)
    res.add("events", n)


def run(case):
    res = Result()
    try:
        if "ops" in case:
            run_hist(res, case)
        elif "stat" in case:
            run_stat(res, case)
        elif "far" in case:
            run_far(res, case)
        else:
            run_events(res, case)
    except drv.Died as e:
        res.fail("died", str(e)[:300], case)
    return res


def task_fn(t):
    res = Result()
    r = rng_for("C29", *t)
    kind, seed, i, n = t
    for k in range(n):
        if kind == "hist":
            c = dict(ops=history(r))
        elif kind == "long":
            c = dict(stat=["long", a_seed(r), 200000, 1])
        elif kind == "heads":
            s = r.choice([1, r.randint(1, 10 ** 6), r.randint(1, 2 ** 31 - 30000), r.randint(-2 ** 31, -30000), -5000])
            c = dict(stat=["heads", s] + r.choice([[20000, 10], [2000, 100], [400, 500]]))
        elif kind == "far":
            b = a_seed(r)
            w = lambda v: (v + 2 ** 31) % 2 ** 32 - 2 ** 31
            c = dict(far=[b, sorted({w(b ^ (1 << j)) for j in range(32)} | {w(-b), w(b + 1), w(b * 2), w(b + 10 ** 6)})])
        else:
            iso, e = r.choice([(98252, 0.0), (92235, 2.53e-8), (94239, 14.0), (98254, 0.0)])
            c = dict(events=[iso, e, r.choice([1, r.randint(1, 10 ** 6), r.randint(1, 2 ** 31 - 2000)]), 220])
        res.merge(run(c))
    return res


def tasks(tier, seed):
    f = 1 if tier != "thorough" else 30
    t = [("events", seed, i, 1) for i in range(8 * f)] + [("hist", seed, i, 40) for i in range(16 * f)]
    t += [("long", seed, i, 2) for i in range(8 * f)] + [("heads", seed, i, 2) for i in range(12 * f)] + [("far", seed, i, 10) for i in range(8 * f)]
    return t


def shrink(c):
    if "ops" in c:
        o = c["ops"]
        for i in range(len(o)):
            n = o[:i] + o[i + 1:]
            try:
                model(n)
            except (KeyError, TypeError):
                continue
            yield dict(ops=n)
    elif "stat" in c and c["stat"][2] > 2000:
        yield dict(stat=[c["stat"][0], c["stat"][1], c["stat"][2] // 2, c["stat"][3]])
    elif "events" in c and c["events"][3] > 40:
        yield dict(events=c["events"][:3] + [c["events"][3] // 2])
