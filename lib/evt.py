"""Event-based checks: generate (reaction, energy, seed, window, level scheme) cases, run them through the
public API, judge each event by an oracle."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, gen, levels as L, drv, hunt, intern
from core import Result, rng_for


def get_scheme(spec):
    if spec is None:
        return None
    if "levels" in spec:
        return {int(k): [dict(E=l["E"], J=l["J"], P=l["P"], T=l["T"], g=[tuple(x) for x in l["g"]]) for l in v]
                for k, v in spec["levels"].items()}
    kw = dict(spec)
    seed = kw.pop("seed")
    for k in ("gaps", "tscale"):
        if k in kw:
            kw[k] = tuple(kw[k])
    return L.random_scheme(rng_for("scheme", seed), **kw)


def correlated_times(r):
    """(start, window) of the scale of the half-lives of COMPARABLE"""
    w = r.choice([-1.0, 10 ** r.uniform(-9.3, -7.5), 10 ** r.uniform(-9.3, -7.5), 10 ** r.uniform(-9.3, -7.5)])
    return r.choice([0.0, abs(w) * r.uniform(0.05, 0.95) if w > 0 else 3e-9, abs(w) * r.uniform(1.0, 4.0) if w > 0 else 2e-8]), w


def make_tasks(n_events, per_task, seed, tag, specs, *, reactions=None, tw=None, t=None, times=None):
    """specs: list of scheme kwargs to cycle; reactions: f(r, n) -> list of (iso, e)"""
    r = rng_for(tag, seed)
    intern.ready("i_scan")                      # built once, before the workers start
    rx = (reactions or gen.stratified)(r, n_events)
    tasks = []
    for i in range(0, n_events, per_task):
        sp = dict(specs[(i // per_task) % len(specs)])
        sp["seed"] = "%s-%d-%d" % (tag, seed, i)
        cases = []
        for iso, e in rx[i:i + per_task]:
            tt = times(r) if times else (t(r) if t else 0.0, tw(r) if tw else -1.0)
            # one in eight on a stream that visits the ends of the unit interval more often (a negative seed, see api_driver.cpp)
            cases.append((iso, e, r.randint(1, 2 ** 31 - 2) * (-1 if r.random() < 0.125 else 1)) + tuple(tt))
        tasks.append(dict(scheme=sp, cases=cases))
        if (i // per_task) % 4 == 2:            # one reaction, at seeds chosen for their extreme fragments
            tasks[-1].update(cases=[(c0,) + tuple(c[3:]) for c0, c in zip(range(len(cases)), cases)], hunt=[rx[i][0], rx[i][1], "%s-%d-%d" % (tag, seed, i)])
    return tasks


def cases_of(task):
    cases = task["cases"]
    if task.get("hunt"):
        iso, e, key = task["hunt"]
        ss = hunt.seeds(iso, e, rng_for("hunt", key), len(cases), 4000 if e < 5.0 else 800)
        cases = [(iso, e, s) + tuple(c[1:]) for s, c in zip(ss, cases)]
    return cases


def run_task(task, oracle, cmd=None):
    """oracle(ev, case, scheme, res) reports through res.fail(...)"""
    res = Result()
    scheme = get_scheme(task["scheme"])
    d = None
    try:
        for c in cases_of(task):
            if d is None:
                d = drv.Driver(scheme)
            iso, e, seed, t, tw = c
            case = dict(scheme=task["scheme"], iso=iso, E=e, seed=seed, t=t, tw=tw)
            try:
                ev = d.event(iso, e, seed, t, tw)
            except drv.Died as x:
                res.case()
                res.fail("no-event", "no event for a supported input %s E=%r seed=%d tw=%r: %s" % (iso, e, seed, tw, str(x)[:300]), case)
                d.close(); d = None
                continue
            nf = len(res.fails)
            oracle(ev, case, scheme, res)
            nt = ev.nn + ev.ng > 0
            res.case(key=(iso, e, seed, tw), nontrivial=nt,
                     sample="iso=%d E=%g seed=%d tw=%g: LF(%d,%d) HF(%d,%d) nu=%d+%d pre=%d gammas=%d" % (
                         iso, e, seed, tw, ev.fr[0].Z, ev.fr[0].A, ev.fr[1].Z, ev.fr[1].A, ev.fr[0].nu, ev.fr[1].nu, ev.npre, ev.ng)
                     if res.n < 2 else None)
            res.add("events"); res.add("neutrons", ev.nn); res.add("photons", ev.ng); res.add("prefission_neutrons", ev.npre)
    finally:
        if d is not None:
            d.close()
    return res


def replay(case, oracle):
    task = dict(scheme=case["scheme"], cases=[(case["iso"], case["E"], case["seed"], case["t"], case["tw"])])
    r = run_task(task, oracle)
    return r.fails


def shrink(case):
    """smaller level file first (only the nuclei of the two chains), then smaller seeds / simpler inputs"""
    sp = case["scheme"]
    if sp is not None and "levels" not in sp:
        sch = get_scheme(sp)
        try:
            with drv.Driver(sch) as d:
                ev = d.event(case["iso"], case["E"], case["seed"], case["t"], case["tw"])
            keep = {}
            for k in range(2):
                f = ev.fr[k]
                for j in range(0, 10):
                    za = 1000 * f.Z + f.A - j
                    if za in sch:
                        keep[str(za)] = sch[za]
            yield dict(case, scheme=dict(levels=keep))
        except Exception:
            pass
        yield dict(case, scheme=dict(levels={}))
    elif sp is not None:
        ks = list(sp["levels"])
        for k in ks:
            yield dict(case, scheme=dict(levels={q: v for q, v in sp["levels"].items() if q != k}))
    for s in (1, 2, 3, 4, 5, 6, 7, 8):
        if case["seed"] > s:
            yield dict(case, seed=s)
    if case["tw"] != -1.0:
        yield dict(case, tw=-1.0)
    if case["E"] not in (0.0, 1.0, 10.0, 20.0):
        for e in (1.0, 10.0, 20.0):
            yield dict(case, E=e)


NOICC = [dict(nmax=12, icc="none", iso_p=0.0), dict(nmax=1), dict(nmax=25, gaps=(0.01, 0.3)), dict(nmax=6, drop=0.4), dict(nmax=12, nogam_p=0.3)]
TINY = [dict(nmax=25, icc="some", gaps=(0.0002, 0.06), iso_p=0.1), dict(nmax=8, gaps=(0.0001, 0.002))]   # photons below 1 keV
FULL = NOICC + [dict(nmax=12, icc="some", iso_p=0.2), dict(nmax=20, icc="some", iso_p=0.5, drop=0.1)]
ISO = [dict(nmax=12, icc="none", iso_p=0.4), dict(nmax=30, icc="some", gaps=(0.005, 0.15), iso_p=0.3), dict(nmax=8, gaps=(0.3, 1.5), iso_p=0.2)]
# half-lives of the scale of the windows of correlated_times
COMPARABLE = [dict(nmax=10, icc="none", iso_p=0.8, gaps=(0.05, 0.4), tscale=(-9.3, -7.5)), dict(nmax=16, icc="some", iso_p=0.5, gaps=(0.02, 0.3), tscale=(-9.3, -7.5))]
