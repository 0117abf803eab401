import _path, clihist
from core import Check


def run(t):
    return clihist.yields_run(t) if t.get("yields") else clihist.run(t, "file")


def tasks(tier, seed):
    th = tier == "thorough"
    return clihist.make_tasks(1500 if th else 104, seed, "C10", 60 if th else 24, big=3 if th else 1) + clihist.yields_tasks(300 if th else 26, seed, "C10")


def shrink(t):
    if t.get("yields"):
        return (dict(t, n=k) for k in (1, 2) if k < t["n"])
    return clihist.shrink(t)


Check("C10", "command-line runs whose events emit at least one particle, distinct (reaction, energy, number of events, start, window)",
      "generated command lines and level schemes; differential of the parsed history file against the programming interface, value by value",
      run, tasks, lambda c: run(c).fails, shrink, prebuild=("api_driver", "cgmf")).main()
