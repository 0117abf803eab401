import _path, single
from core import Check
Check("C24", "distinct decays with more than one emitted particle; decays of the statistical comparison counted in blocks of 50",
      "property-based testing: generated nuclei, energies, level schemes, seeds and call histories; energy-balance oracle per decay, differential oracle between interfaces and processes, two-sample tests against independently sampled cascades",
      task_fn=single.task_fn, tasks_fn=single.tasks, replay_fn=lambda c: single.run(c).fails, shrink_fn=single.shrink).main()
