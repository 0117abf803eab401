import _path, ld
from core import Check
Check("C21", "distinct (nucleus, level scheme, energies) set-ups whose parameters, densities and spin shares were compared",
      "property-based testing: generated level schemes and sequences of nuclei, differential oracle against an independent implementation of the Gilbert-Cameron form, positivity/continuity/normalisation invariants",
      task_fn=ld.task_fn, tasks_fn=ld.tasks, replay_fn=lambda c: ld.run(c).fails, shrink_fn=ld.shrink).main()
