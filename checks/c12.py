import os, math
import _path, hist, gen, evt, drv
from core import Check, Result, rng_for
from phys import norm


def run(task):
    if task.get("hist"):
        return hist.run(task)
    res = Result()
    sch = evt.get_scheme(task["scheme"])
    d = None
    try:
        for c in evt.cases_of(task):
            if d is None:
                d = drv.Driver(sch)
            case = dict(scheme=task["scheme"], cases=[c])
            a = " %d %r %d %r %r" % tuple(c)
            try:
                x = d.cmd("event" + a)
                y = d.cmd("cevent" + a)
                rx, ry = d.cmd("eventr" + a).split(), d.cmd("ceventr" + a).split()
                dx, dy = d.cmd("eventd" + a).split(), d.cmd("ceventd" + a).split()
            except drv.Died as e:
                res.fail("died", "ended on %s: %s" % (a, str(e)[:250]), case)
                d.close(); d = None
                continue
            ev = drv.Event(x)
            res.case(key=tuple(c), nontrivial=ev.nn + ev.ng > 0, sample="event%s: nn=%d ng=%d pre=%d" % (a, ev.nn, ev.ng, ev.npre) if res.n < 1 else None)
            res.add("values_compared", len(x.split()) + len(rx) + len(ry) + len(dx) + len(dy))
            if x != y:
                p, q = x.split(), y.split()
                j = next((k for k in range(min(len(p), len(q))) if p[k] != q[k]), -1)
                res.fail("c-differs", "C interface differs from C++ for%s at value %d: %s / %s" % (a, j, q[j:j + 2], p[j:j + 2]), case)
            for nm, r in (("C++", rx), ("C", ry)):
                if r[0] != "RG" or any(float(v) != -1.0 for v in r[1:]):
                    res.fail("range-" + nm, "%s interface: index out of range not answered by -1 for%s (%s)" % (nm, a, [v for v in r[1:] if float(v) != -1.0][:3]), case)
            want = []
            for f in ev.fr:
                n = norm(f.pre)
                want += [v / n for v in f.pre]
            for f in ev.fr:
                n = norm(f.post)
                want += [v / n for v in f.post]
            for nm, r in (("C++", dx), ("C", dy)):
                v = [float(t) for t in r[1:]]
                if len(v) not in (6, 12) or any(not abs(p - q) < 1e-9 for p, q in zip(v, want)):
                    res.fail("dircos-" + nm, "%s interface: fragment direction cosines %s, momenta give %s (%s)" % (nm, v, want[:len(v)], a), case)
    finally:
        if d is not None:
            d.close()
    return res


def tasks(tier, seed):
    th = tier == "thorough"
    ts = evt.make_tasks(8000 if th else 480, 20, seed, "C12", evt.FULL + evt.ISO,
                        tw=lambda r: r.choice([-1.0, 0.0, 10 ** r.uniform(-10, 1)]), t=lambda r: r.choice([0.0, 1e-7]))
    ts += evt.make_tasks(3000 if th else 160, 20, seed, "C12t", evt.COMPARABLE, times=evt.correlated_times)
    # generate / clean histories of the C interface, with yields and single-nucleus calls in between
    r = rng_for("C12h", seed)
    for i in range(120 if th else 12):
        pool = hist.make_pool(r, 5)
        ops = []
        for _ in range(120 if th else 40):
            x = r.random()
            ops.append(("cevent", r.choice(pool["ev"])) if x < 0.5 else ("clean",) if x < 0.7 else ("cshow",) if x < 0.8 and ops and ops[-1][0] in ("cevent", "cshow")
                       else ("ccgm", r.choice(pool["cgm"])) if x < 0.87 else ("cyields", r.choice(pool["y"])) if x < 0.94 else ("event", r.choice(pool["ev"])))
        ts.append(dict(hist=True, scheme=dict(nmax=8, icc="some", iso_p=0.3, seed="C12h%d-%d" % (seed, i)), ops=ops, seed="%d-%d" % (seed, i)))
    return ts


def shrink(c):
    if c.get("hist"):
        yield from hist.shrink(c)
    else:
        for x in c["cases"]:
            if len(c["cases"]) > 1:
                yield dict(c, cases=[x])
        x = list(c["cases"][0])
        for s in (1, 2, 3):
            if x[2] > s:
                yield dict(c, cases=[[x[0], x[1], s, x[3], x[4]]])
        if c["scheme"].get("levels") != {}:
            yield dict(c, scheme=dict(levels={}))


Check("C12", "events with at least one particle, distinct (reaction, energy, seed, time, window), each read completely through both interfaces incl. 6 out-of-range indices per function; operations in generate/clean histories",
      "differential of the C and C++ interfaces over generated events and indices; stateful generate/clean histories against fresh processes",
      run, tasks, lambda c: run(c).fails, shrink).main()
