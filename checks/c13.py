import os
import _path, tk, cli, gen, evt, drv
from core import Check, Result, rng_for


def judge(res, m, nev, case):
    n = tk.check_reading(m, nev, lambda sig, msg: res.fail(sig, msg, case))
    res.case(key=("%s" % case)[:4000], nontrivial=any(e[k]["nlab"] or e[k]["g"] for e in m["evs"] for k in ("l", "h")),
             sample="%s file of %d events, nevents=%s: %s neutrons, %s photons" % (case.get("kind", "generated"), len(m["evs"]), nev, sum(len(e[k]["nlab"]) for e in m["evs"] for k in "lh"), sum(len(e[k]["g"]) for e in m["evs"] for k in "lh")) if res.n < 1 else None)
    res.add("getters_compared", n)


def run(task):
    res = Result()
    if "model" in task:
        judge(res, task["model"], task["nev"], task)
    elif "cli" in task:
        iso, e, n, tw, sp = task["cli"]
        with cli.Sandbox(sp) as sb:
            o = sb.events(iso, e, n, tw=tw)
        if o.rc == 0 and o.text:
            m = dict(tk.parse(o.text), text=o.text)
            for nev in (None, 1, max(1, n // 2)):
                judge(res, m, nev, dict(kind="program", cli=task["cli"]))
            res.add("program_files")
    else:
        for s in task["seeds"]:
            r = rng_for("C13", *s)
            m = tk.gen_model(r)
            judge(res, m, None, dict(model=m, nev=None))
            k = r.randint(1, len(m["evs"]) + 1)
            judge(res, m, k, dict(model=m, nev=k))
    return res


def tasks(tier, seed):
    th = tier == "thorough"
    ts = [dict(seeds=[(seed, i * 40 + j) for j in range(40)]) for i in range(2000 if th else 100)]
    r = rng_for("C13p", seed)
    for i in range(96 if th else 16):
        iso, e = gen.reaction(r)
        ts.append(dict(cli=[iso, e, r.choice([1, 1, 2, 8, 20]), r.choice([-1.0, None, -1.0, 0.0, 1e-7]), dict(nmax=6, icc="some", iso_p=0.3, seed="C13-%d-%d" % (seed, i))]))
    return ts


def shrink(c):
    m = c.get("model")
    if not m:
        return
    if c["nev"] is not None:
        yield dict(c, nev=None)
        if c["nev"] > 1:
            yield dict(c, nev=1)
    for i in range(len(m["evs"])):
        if len(m["evs"]) > 1:
            yield dict(c, model=dict(m, evs=m["evs"][:i] + m["evs"][i + 1:]))
    for i, ev in enumerate(m["evs"]):
        for k in "lh":
            for q in ("g", "n"):
                x = dict(ev[k], g=[]) if q == "g" else dict(ev[k], ncm=[], nlab=[])
                if x != ev[k]:
                    yield dict(c, model=dict(m, evs=m["evs"][:i] + [dict(ev, **{k: x})] + m["evs"][i + 1:]))


if __name__ == "__main__":
    Check("C13", "files with at least one emitted particle, distinct by contents and number of events requested; every getter compared with the independently written model of the file",
          "model-based generation of history files (and files of real runs) read by the package, every getter against the model",
          run, tasks, lambda c: run(c).fails, shrink, prebuild=("cgmf",)).main()
