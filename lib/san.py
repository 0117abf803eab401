"""C23: generated call histories and level files under AddressSanitizer + UndefinedBehaviorSanitizer, and a differential
between builds whose uninitialised memory holds different values (stack: -ftrivial-auto-var-init, heap: MALLOC_PERTURB_)."""
import os, re
import cli, drv, evt, gen, hist, levels as L
from core import Result, rng_for

MARK = re.compile(r"(AddressSanitizer|runtime error|LeakSanitizer|UndefinedBehaviorSanitizer|Assertion|terminate called|stack smashing|double free|corrupted|free\(\): )[^\n]*")
ZERO = dict(MALLOC_PERTURB_="255", GLIBC_TUNABLES="glibc.malloc.tcache_count=0")       # fresh heap memory reads 0x00
PATT = dict(MALLOC_PERTURB_="165", GLIBC_TUNABLES="glibc.malloc.tcache_count=0")       # fresh heap memory reads 0x5a
ASAN = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99")
LIMIT = 200          # documented maximum number of levels of a nucleus (exclusive)


def chain(r, z, a, n, gap):
    """every level decays to the one below: the longest possible cascade"""
    odd = a % 2
    lv, e = [], 0.0
    for i in range(n):
        if i:
            e = L.q(e + r.uniform(0.6, 1.4) * gap, "%.6f")
        lv.append(dict(E=e, J=(0.5 if odd else 0.0) + (r.randint(0, 6) if i else 0), P=r.choice([-1, 1]) if i else 1, T=L.q(10 ** r.uniform(-9, -6), "%.5e") if r.random() < 0.2 else 0.0,
                       g=[(i - 1, 1.0, r.choice([0.0, 0.5]))] if i else []))
    return lv


def bushy(r, z, a, n, gap):
    """many levels, as many branches as the reader allows"""
    odd = a % 2
    lv, e = [], 0.0
    for i in range(n):
        if i:
            e = L.q(e + r.uniform(0.2, 1.8) * gap, "%.6f")
        k = min(i, r.choice([1, 3, 20, 60, 61]))
        lv.append(dict(E=e, J=(0.5 if odd else 0.0) + r.choice([0, 1, 2, 5, 9, 15, 25]), P=r.choice([-1, 1]), T=0.0,
                       g=[(f, L.q(r.uniform(0.0, 1.0), "%.3e"), r.choice([0.0, 1.0])) for f in sorted(r.sample(range(i), k))]))
    return lv


def scheme(sp):
    k = sp.get("kind")
    if k is None:
        return evt.get_scheme(sp)
    r = rng_for("san", sp["seed"])
    f = dict(chain=chain, bushy=bushy)[k]
    return {1000 * z + a: f(r, z, a, r.choice(sp["n"]), r.choice(sp["gap"])) for z, a in L.nuclei() if r.random() >= sp.get("drop", 0.0)}


def complaint(err):
    m = MARK.search(err or "")
    return m.group(0)[:200] if m else None


def message(rc, err):
    """ended by the program itself with an error message"""
    return isinstance(rc, int) and rc > 0 and rc != 99 and bool((err or "").strip()) and not complaint(err)


def label(op):
    return hist.cmd_of(tuple(op))


def play(res, case):
    """history under the sanitizers"""
    S = scheme(case["scheme"])
    d = drv.Driver(S, variant="asan", env=ASAN)
    try:
        for i, op in enumerate(case["ops"]):
            op = tuple(op)
            try:
                hist.do(d, op)
            except drv.Died as x:
                c = complaint(x.err)
                part = dict(case, ops=case["ops"][:i + 1])
                if c:
                    frames = re.findall(r"#\d+ \S+ in ([^\n]*/libcgmf/[^\n]*|[^\n]*/repo/[^\n]*)", x.err)[:2]
                    res.fail("memory", "operation %d (%s): %s %s" % (i, label(op), c, frames), part)
                elif not (case.get("long") and message(x.rc, x.err)):
                    res.fail("ended", "operation %d (%s) ended the process: rc=%s %s" % (i, label(op), x.rc, x.err[-200:]), part)
                else:
                    res.case(key=(case["seed"], i), nontrivial=True, sample="limit reported: %s -> %s" % (label(op), x.err.strip()[-80:]))
                    res.add("limit_reported")
                    d.close()
                    d = drv.Driver(S, variant="asan", env=ASAN)
                continue_after_fail = bool(res.fails)
                if continue_after_fail:
                    return
                continue
            res.case(key=(case["seed"], i), nontrivial=op[0] not in ("clean", "cleanup", "drop"), sample="asan: %s" % label(op) if i == 2 else None)
            res.add("asan_" + op[0])
    finally:
        d.close()


def differ(res, case):
    """the same history with different contents of uninitialised memory"""
    S = scheme(case["scheme"])
    with drv.Driver(S, variant="zero", env=ZERO) as a, drv.Driver(S, variant="pattern", env=PATT) as b:
        for i, op in enumerate(case["ops"]):
            op = tuple(op)
            out = []
            for d in (a, b):
                try:
                    out.append(hist.do(d, op))
                except drv.Died as x:
                    out.append(("died", x.rc, x.err[-200:]))
            part = dict(case, ops=case["ops"][:i + 1])
            if any(isinstance(o, tuple) for o in out):
                dead = [o for o in out if isinstance(o, tuple)]
                if case.get("long") and len(dead) == 2 and all(message(o[1], o[2]) for o in dead):
                    res.case(key=(case["seed"], i), nontrivial=True)
                    return
                res.fail("ended", "operation %d (%s) ended the process: %s" % (i, label(op), dead[0]), part)
                return
            res.case(key=(case["seed"], i), nontrivial=op[0] not in ("clean", "cleanup", "drop"), sample="uninitialised memory: %s" % label(op) if i == 1 else None)
            res.add("uninit_" + op[0])
            if out[0] != out[1]:
                x, y = out[0].split(), out[1].split()
                j = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
                res.fail("uninitialised", "operation %d (%s): result depends on the contents of uninitialised memory (field %d: %s / %s)" % (i, label(op), j, x[j:j + 2], y[j:j + 2]), part)
                return


def command(res, case):
    with cli.Sandbox(scheme=scheme(case["scheme"]), variant="asan") as sb:
        args = ["-i", case["iso"], "-e", repr(case["E"]), "-n", case["n"], "-s", case["s"], "-f", "h.out"]
        if case.get("tw") is not None:
            args += ["-t", repr(case["tw"])]
        o = sb.run(args, env=ASAN, timeout=500)
    c = complaint(o.err) or complaint(o.out)
    if c:
        res.fail("memory", "%s: %s" % (o.cmd, c), case)
    elif o.rc != 0 and not (case.get("long") and message(o.rc, o.err + o.out)):
        res.fail("ended", "%s: rc=%s %s" % (o.cmd, o.rc, o.err[-200:]), case)
    res.case(key=(case["iso"], case["E"], case["n"], case["s"]), nontrivial=True, sample=o.cmd)
    res.add("asan_command_line")


def toomany(res, case):
    """number of levels of a nucleus at and beyond the limit of the program"""
    r = rng_for("san-many", case["seed"])
    z, a = case["z"], case["a"]
    S = {1000 * z + a: bushy(r, z, a, case["n"], 0.02)}
    try:
        with drv.Driver(S, variant="asan", env=ASAN) as d:
            d.cmd("cgm %d %r %d" % (1000 * z + a, case["U"], 7))
        rc, err = 0, ""
    except drv.Died as x:
        rc, err = x.rc, x.err
    c = complaint(err)
    what = "level file with %d levels for Z=%d A=%d" % (case["n"], z, a)
    if c:
        res.fail("memory", "%s: %s" % (what, c), case)
    elif case["n"] < LIMIT and rc != 0:
        res.fail("ended", "%s: rc=%s %s" % (what, rc, err[-200:]), case)
    elif case["n"] >= LIMIT and rc != 0 and not message(rc, err):
        res.fail("ended", "%s: ended without a message, rc=%s" % (what, rc), case)
    res.case(key=(case["n"], z, a), nontrivial=case["n"] > 100, sample="%s: rc=%s" % (what, rc))
    res.add("level_limits")


def run(case):
    res = Result()
    dict(asan=play, uninit=differ, cli=command, many=toomany)[case["kind"]](res, case)
    return res


SPECS = [dict(nmax=12, icc="some", iso_p=0.3, tscale=(-10, -7)), dict(nmax=1), dict(nmax=10, drop=0.3, iso_p=0.2),
         dict(kind="bushy", n=[1, 2, 40, 120, 199], gap=[0.005, 0.03]), dict(nmax=20, gaps=(0.3, 1.0)),
         dict(kind="chain", n=[1, 20, 45], gap=[0.05, 0.2], drop=0.1), dict(nmax=199, gaps=(0.003, 0.05), icc="some"),
         dict(kind="chain", n=[2, 60, 90, 199], gap=[0.004, 0.02]), dict(levels={}), dict(kind="bushy", n=[70], gap=[0.08], drop=0.5)]


def tasks(n_asan, n_un, length, n_cli, seed):
    r = rng_for("C23", seed)
    ts = []
    for kind, n in (("asan", n_asan), ("uninit", n_un)):
        for i in range(n):
            sp = dict(SPECS[i % len(SPECS)])
            if "levels" not in sp:
                sp["seed"] = "C23-%s-%d-%d" % (kind, seed, i)
            ts.append(dict(kind=kind, scheme=sp, long=sp.get("kind") == "chain", ops=hist.gen_ops(r, length, hist.make_pool(r, 8)), seed="%d-%s-%d" % (seed, kind, i)))
    for i in range(n_cli):
        iso, e = gen.reaction(r)
        sp = dict(SPECS[(3 * i) % len(SPECS)])
        if "levels" not in sp:
            sp["seed"] = "C23-cli-%d-%d" % (seed, i)
        y = i % 4 == 3
        ts.append(dict(kind="cli", scheme=sp, long=sp.get("kind") == "chain", iso=iso, E=e, n=-r.randint(2, 30) if y else r.randint(1, 6), s=r.choice([1, r.randint(1, 10 ** 8)]), tw=r.choice([None, -1.0, 0.0, 1e-8])))
    for n in (198, 199, 200, 201, 250):
        z = r.randint(36, 60)
        ts.append(dict(kind="many", n=n, z=z, a=int(2.5 * z), U=round(r.uniform(1, 12), 3), seed=seed))
    return ts


def shrink(c):
    if c["kind"] in ("asan", "uninit"):
        n = len(c["ops"])
        yield dict(c, ops=c["ops"][-1:])
        for size in (n // 2, n // 4, 4, 1):
            if size >= 1:
                for s in range(0, n - 1, size):
                    if s + size <= n - 1:
                        yield dict(c, ops=c["ops"][:s] + c["ops"][s + size:])
        if c["scheme"].get("levels") != {}:
            yield dict(c, scheme=dict(levels={}))
    elif c["kind"] == "cli" and abs(c["n"]) > 1:
        yield dict(c, n=1 if c["n"] > 0 else -1)
