import os, tempfile
import _path, tk, cli, gen
from core import Check, Result, rng_for


def judge(res, m, nev, case):
    n = tk.check_yields(m, nev, lambda sig, msg: res.fail(sig, msg, case))
    res.case(key=("%s" % case)[:4000], nontrivial=True, sample="%d fragments, nevents=%s, first row %s" % (len(m["rows"]), nev, m["rows"][0]) if res.n < 1 else None)
    res.add("getters_compared", n)


def run(task):
    res = Result()
    if "model" in task:
        judge(res, task["model"], task["nev"], task)
    elif "cli" in task:
        iso, e, n = task["cli"]
        with cli.Sandbox() as sb:
            o = sb.run(["-i", iso, "-e", repr(e), "-n", -n, "-f", "y.out"])
        t = next((v for k, v in o.files.items() if k.startswith("y.out")), None)
        if o.rc == 0 and t:
            m = dict(rows=[l.split() for l in t.split("\n") if l.strip() and not l.startswith("#")], text=t)
            for nev in (None, 1, max(1, n // 2)):
                judge(res, m, nev, dict(cli=task["cli"]))
            res.add("program_files")
    else:
        for s in task["seeds"]:
            r = rng_for("C15", *s)
            m = tk.gen_yields(r)
            judge(res, m, None, dict(model=m, nev=None))
            k = r.randint(1, len(m["rows"]) // 2 + 1)
            judge(res, m, k, dict(model=m, nev=k))
    return res


def tasks(tier, seed):
    th = tier == "thorough"
    ts = [dict(seeds=[(seed, i * 40 + j) for j in range(40)]) for i in range(1000 if th else 60)]
    r = rng_for("C15p", seed)
    for i in range(80 if th else 16):
        iso, e = gen.reaction(r)
        ts.append(dict(cli=[iso, e, r.choice([1, 2, 30, 200])]))
    return ts


def shrink(c):
    m = c.get("model")
    if not m:
        return
    for i in range(0, len(m["rows"]), 2):
        if len(m["rows"]) > 2:
            yield dict(c, model=dict(m, rows=m["rows"][:i] + m["rows"][i + 2:]))
    if c["nev"] is not None:
        yield dict(c, nev=None)


Check("C15", "distinct generated or program-written yields files and numbers of events requested; every getter and the summary table compared with the rows of the file",
      "model-based generation of yields files (and files of real runs) read by the package, every getter against the rows",
      run, tasks, lambda c: run(c).fails, shrink, prebuild=("cgmf",)).main()
