"""Histories of operations on the library in one process, each result compared with the same request in a fresh process."""
import hashlib, os
import drv, gen, evt
from core import Result, rng_for


def cmd_of(op):
    k = op[0]
    if k in ("event", "cevent", "eventd", "ceventd"):
        return "%s %d %r %d %r %r" % ((k,) + tuple(op[1]))
    if k == "hold":
        return "hold %d %d %r %d %r %r" % ((op[1],) + tuple(op[2]))
    if k in ("cgm", "ccgm"):
        return "%s %d %r %d" % ((k,) + tuple(op[1]))
    if k in ("yields", "cyields"):
        return "%s %d %r %d %d y.out" % ((k,) + tuple(op[1]))
    if k in ("show", "drop"):
        return "%s %d" % (k, op[1])
    return k


def gen_ops(r, n, pool, with_c=True):
    """a history over a small pool of requests; interleaves both interfaces, live events, clean-ups, yields runs"""
    ops, live, chave = [], set(), None
    for _ in range(n):
        x = r.random()
        if x < 0.40:
            ops.append(("event", r.choice(pool["ev"])))
        elif x < 0.52:
            ops.append(("cevent", r.choice(pool["ev"]))); chave = True
        elif x < 0.64:
            k = r.randint(0, 3)
            ops.append(("hold", k, r.choice(pool["ev"]))); live.add(k)
        elif x < 0.72 and live:
            ops.append(("show", r.choice(sorted(live))))
        elif x < 0.78 and live:
            k = r.choice(sorted(live)); live.discard(k)
            ops.append(("drop", k))
        elif x < 0.82 and chave:
            ops.append(("cshow",))
        elif x < 0.86:
            ops.append(("cgm" if r.random() < 0.5 else "ccgm", r.choice(pool["cgm"])))
        elif x < 0.92:
            ops.append(("yields" if r.random() < 0.5 else "cyields", r.choice(pool["y"])))
        elif x < 0.96:
            ops.append(("clean",)); chave = None
        else:
            ops.append(("cleanup",))
    return ops


def make_pool(r, n):
    ev = []
    for iso, e in gen.stratified(r, n):
        ev.append((iso, e, r.randint(1, 2 ** 31 - 2), r.choice([0.0, 0.0, 1e-7]), r.choice([-1.0, 0.0, 1e-8, 10 ** r.uniform(-10, 1)])))
    # the same reaction at another energy or seed: state kept from one must not leak into the other
    iso = r.choice(gen.NF)
    for e in (gen.round_e(gen.energy(r)), gen.round_e(r.uniform(8, 20)), 2.53e-8):
        ev.append((iso, e, r.randint(1, 2 ** 31 - 2), 0.0, -1.0))
    for _ in range(2):
        ev.append((r.choice(gen.SF), 0.0, r.randint(1, 2 ** 31 - 2)) + tuple(evt.correlated_times(r)))
    a = ev[0]
    ev.append((a[0], a[1], r.randint(1, 2 ** 31 - 2), 0.0, -1.0))
    cg = [(1000 * z + a, round(r.uniform(0.5, 25), 3), r.randint(1, 2 ** 31 - 2)) for z, a in
          [(r.randint(32, 62), 0) for _ in range(3)] for a in [int(z * 2.5) + r.randint(-2, 4)]]
    y = []
    for iso, e in gen.stratified(r, 3):
        y.append((iso, min(e, 6.0) if e else 0.0, r.randint(3, 40), r.randint(1, 2 ** 31 - 2)))
    return dict(ev=ev, cgm=cg, y=y)


class Ref:
    """results in fresh processes"""
    def __init__(self, scheme):
        self.scheme, self.c = scheme, {}

    def get(self, kind, req):
        k = (kind, tuple(req))
        if k not in self.c:
            with drv.Driver(self.scheme) as d:
                self.c[k] = do(d, (kind, req))
        return self.c[k]


def do(d, op):
    """run one operation and bring its observable result"""
    k = op[0]
    if k in ("yields", "cyields"):
        p = os.path.join(d.cwd, "y.out")
        if os.path.exists(p):
            os.unlink(p)
        d.cmd(cmd_of(op))
        return open(p).read() if os.path.exists(p) else "NOFILE"
    return d.cmd(cmd_of(op))


def play(scheme_spec, ops, res, case):
    scheme = evt.get_scheme(scheme_spec)
    ref = Ref(scheme)
    held, cur = {}, None
    d = drv.Driver(scheme)
    try:
        for i, op in enumerate(ops):
            try:
                out = do(d, op)
            except drv.Died as x:
                res.fail("died", "operation %d (%s) of the history ended the process: %s" % (i, cmd_of(op), str(x)[:250]), dict(case, ops=ops[:i + 1]))
                return
            want = None
            k = op[0]
            if k in ("event", "cevent"):
                want = ref.get("event", op[1])
                if k == "cevent":
                    cur = op[1]
            elif k in ("eventd",):
                want = ref.get("eventd", op[1])
            elif k == "hold":
                held[op[1]] = op[2]
                want = ref.get("event", op[2])
            elif k == "show" and op[1] in held:
                want = ref.get("event", held[op[1]])
            elif k == "cshow" and cur is not None:
                want = ref.get("event", cur)
            elif k in ("cgm", "ccgm"):
                want = ref.get("cgm", op[1])
                if k == "ccgm":      # the C interface brings the energies only
                    f = want.split()
                    want = " ".join(f[:3 + int(f[1]) + int(f[2])])
            elif k in ("yields", "cyields"):
                want = ref.get("yields", op[1])
            elif k == "clean":
                cur = None
            if want is not None:
                res.case(key=(case["seed"], i), nontrivial=i > 0 and len(out) > 10, sample="op %d: %s after %s" % (i, cmd_of(op), [cmd_of(o)[:30] for o in ops[max(0, i - 3):i]]) if i in (3,) else None)
                res.add("op_" + k)
                if out != want:
                    a, b = out.split(), want.split()
                    j = next((q for q in range(min(len(a), len(b))) if a[q] != b[q]), min(len(a), len(b)))
                    res.fail("history-" + ("yields" if "yields" in k else "cgm" if "cgm" in k else "event"),
                             "operation %d (%s) differs from the same request in a fresh process at field %d: %s instead of %s; history %s" % (
                                 i, cmd_of(op), j, a[j:j + 2], b[j:j + 2], [cmd_of(o)[:40] for o in ops[max(0, i - 3):i]]), dict(case, ops=ops[:i + 1]))
                    return
    finally:
        d.close()


def tasks(n, length, seed, tag):
    r = rng_for(tag, "hist", seed)
    specs = [dict(nmax=12, icc="some", iso_p=0.3, tscale=(-10, -7)), dict(nmax=1), dict(nmax=10, drop=0.3, iso_p=0.2), dict(nmax=20, icc="some"), dict(nmax=20, gaps=(0.3, 1.0))]
    out = []
    for i in range(n):
        pool = make_pool(r, 8)
        sp = dict(specs[i % 5], seed="%s-h-%d-%d" % (tag, seed, i))
        out.append(dict(hist=True, scheme=sp, ops=gen_ops(r, length, pool), seed="%d-%d" % (seed, i)))
    return out


def run(task):
    res = Result()
    play(task["scheme"], [tuple(o) for o in task["ops"]], res, task)
    return res


def shrink(case):
    ops = case["ops"]
    n = len(ops)
    # keep the failing (last) operation, drop blocks before it
    for size in (n // 2, n // 4, n // 8, 4, 2, 1):
        if size < 1:
            continue
        for s in range(0, n - 1, size):
            if s + size <= n - 1:
                yield dict(case, ops=ops[:s] + ops[s + size:])
    if case["scheme"] and case["scheme"].get("levels") != {}:
        yield dict(case, scheme=dict(levels={}))
