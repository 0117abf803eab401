import _path, tk
from core import Check, Result, rng_for
import c13


def judge(res, m, args, case):
    def count(name, want):
        res.n += 1
        res.add("n_" + name)
    res.case(key=("%s" % case)[:4000], nontrivial=any(e[k]["nlab"] or e[k]["g"] for e in m["evs"] for k in ("l", "h")),
             sample="%d events, arguments %s" % (len(m["evs"]), args) if res.n < 1 else None)
    tk.check_observables(m, args, lambda sig, msg: res.fail(sig, msg, case), count)


def run(task):
    res = Result()
    if "model" in task:
        judge(res, task["model"], task["args"], task)
    else:
        for s in task["seeds"]:
            r = rng_for("C14", *s)
            m = tk.gen_model(r)
            a = tk.gen_args(r, tk.N(m))
            judge(res, m, a, dict(model=m, args=a, nev=None))
    return res


def tasks(tier, seed):
    return [dict(seeds=[(seed, i * 20 + j) for j in range(20)]) for i in range(1500 if tier == "thorough" else 60)]


if __name__ == "__main__":
    Check("C14", "generated files with at least one emitted particle, distinct by contents and arguments; evaluations count single observables compared with their definition",
          "definition-based reference model over generated history files and arguments, every observable in two evaluation orders",
          run, tasks, lambda c: run(c).fails, c13.shrink, prebuild=()).main()
