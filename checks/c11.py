import _path, clihist
from core import Check


def run(t):
    return clihist.run(t, "summary")


def tasks(tier, seed):
    return clihist.make_tasks(1500, seed, "C11", 60, big=3) if tier == "thorough" else clihist.make_tasks(104, seed, "C11", 24, big=1)


Check("C11", "command-line runs whose events emit at least one particle, distinct (reaction, energy, number of events, start, window)",
      "generated command lines and level schemes; averages recomputed from the programming interface against the printed summary",
      run, tasks, lambda c: run(c).fails, clihist.shrink, prebuild=("api_driver", "cgmf")).main()
