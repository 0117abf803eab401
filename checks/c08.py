import os, subprocess, shutil, tempfile
import _path, hist, cli, gen
from core import Check, Result, rng_for


def split_task(task):
    """a run over a range of event numbers = the concatenation of runs over its parts"""
    res = Result()
    iso, e, n, s, cuts, tw = task["iso"], task["E"], task["n"], task["s"], task["cuts"], task["tw"]
    with cli.Sandbox(task["scheme"]) as sb:
        whole = sb.events(iso, e, n, s, tw)
        parts, a = [], 0
        for c in cuts + [n]:
            if c > a:
                parts.append(sb.events(iso, e, c - a, s + a, tw))
            a = c
    res.case(key=("split", iso, e, s, n), nontrivial=len(parts) > 1, sample="CLI %d E=%g events %d..%d split at %s" % (iso, e, s, s + n - 1, cuts))
    res.add("split_runs", 1)
    for o in [whole] + parts:
        if o.rc != 0 or o.text is None:
            res.fail("split-run", "run failed: %s rc=%s %s" % (o.cmd, o.rc, o.err[-200:]), task)
            return res
    body = whole.text.split("\n", 1)[1]
    got = "".join(p.text.split("\n", 1)[1] for p in parts)
    if body != got:
        la, lb = body.split("\n"), got.split("\n")
        j = next((q for q in range(min(len(la), len(lb))) if la[q] != lb[q]), min(len(la), len(lb)))
        res.fail("split", "events %d..%d of %d E=%g differ between one run and runs split at %s (line %d: %r / %r)" % (
            s, s + n - 1, iso, e, cuts, j + 2, la[j:j + 1], lb[j:j + 1]), task)
    return res


def run(task):
    return hist.run(task) if task.get("hist") else split_task(task)


def tasks(tier, seed):
    th = tier == "thorough"
    ts = hist.tasks(240 if th else 24, 120 if th else 55, seed, "C08")
    r = rng_for("C08", "split", seed)
    for i in range(200 if th else 16):
        iso, e = gen.reaction(r)
        n = r.randint(3, 14)
        cuts = sorted(r.sample(range(1, n), r.randint(1, 2)))
        ts.append(dict(iso=iso, E=e, n=n, s=r.choice([1, 2, 17, r.randint(1, 10 ** 8)]), cuts=cuts, tw=r.choice([None, -1.0, 0.0, 1e-8]),
                       scheme=dict(nmax=8, icc="some", iso_p=0.3, seed="C08s%d-%d" % (seed, i))))
    return ts


def shrink(c):
    if c.get("hist"):
        yield from hist.shrink(c)
    else:
        if len(c["cuts"]) > 1:
            for x in c["cuts"]:
                yield dict(c, cuts=[x])
        if c["n"] > 2:
            yield dict(c, n=2, cuts=[1])


Check("C08", "operations after at least one other operation in the same process (histories), distinct; split runs with at least two parts",
      "stateful generation of call histories, differential against fresh processes; range-splitting relation of the command line",
      run, tasks, lambda c: run(c).fails, shrink, prebuild=("api_driver", "cgmf")).main()
