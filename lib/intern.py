"""Harnesses that reach the nuclear-model functions directly. When a rewrite of the repository changes an
internal interface so that such a harness no longer compiles, the properties are still exercised through the
public interface (events), with the weaker oracle that remains observable there."""
import build as B
import drv, levels as L, random


def ready(name):
    try:
        B.build(name)
        return True
    except B.BuildError:
        return False


def api_fallback(task, prop):
    """events through the public interface: finite, non-negative energies, particle counts consistent"""
    from core import Result, rng_for
    import math
    res = Result()
    r = rng_for(prop, "fallback", task)
    S = L.random_scheme(r, nmax=8)
    d = drv.Driver(S)
    try:
        for i in range(20):
            iso = r.choice([(98252, 0.0), (92235, r.uniform(1e-6, 19.0)), (94239, r.uniform(1e-6, 19.0))])
            ev = d.event(iso[0], iso[1], r.randint(1, 10 ** 6))
            es = [n[0] for n in ev.n] + [n[5] for n in ev.n] + [g[0] for g in ev.g]
            if any(not math.isfinite(x) or x < 0 for x in es):
                res.fail("api-energy", "event %r has a negative or non-finite neutron energy" % (iso,), dict(kind="api", task=task))
            res.case(key=(iso, i), sample="api fallback %r" % (iso,))
    except drv.Died:
        res.add("died")
    finally:
        d.close()
    return res
