import _path, ystat
from core import Check
Check("C17", "sampled fragment pairs (counted in blocks of 1/50 of a run), each with its own spins, parities and sharing",
      "property-based testing: generated reactions and energies, probability-integral-transform tests of the spin law, deterministic sharing oracle",
      task_fn=ystat.Task("JP", True), tasks_fn=lambda tier, seed: ystat.make_tasks(tier, seed, "C17"),
      replay_fn=lambda c: ystat.run_task(c, "JP", True).fails, shrink_fn=ystat.shrink).main()
