import _path, ystat
from core import Check
Check("C16", "sampled fragment pairs (counted in blocks of 1/50 of a run), each with its own mass, charge and kinetic energy draw",
      "property-based testing: generated reactions and energies over every regime of the systematics, chi-square / KS / moments against an independent implementation",
      task_fn=ystat.Task("AZT", False), tasks_fn=lambda tier, seed: ystat.make_tasks(tier, seed, "C16"),
      replay_fn=lambda c: ystat.run_task(c, "AZT", False).fails, shrink_fn=ystat.shrink).main()
