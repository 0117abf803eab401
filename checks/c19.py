import _path, om
from core import Check
Check("C19", "distinct (nucleus, neutron energy) pairs, and decaying states with more than three open final states",
      "property-based testing: generated nuclei and neutron energies, differential oracle against an independent Numerov solution of the same optical potential, range and sum rules",
      task_fn=om.task_fn, tasks_fn=om.tasks, replay_fn=lambda c: om.run(c).fails, shrink_fn=om.shrink).main()
