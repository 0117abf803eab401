import _path, ang
from core import Check
Check("C25", "sampled fragment pairs (in blocks of 1/50 of a run) and events with at least one emitted particle",
      "property-based testing: generated reactions and energies; KS / moment tests of direction cosines and azimuths against isotropy and the tabulated anisotropy",
      task_fn=ang.run, tasks_fn=ang.make_tasks, replay_fn=lambda c: ang.run(c).fails, shrink_fn=ang.shrink).main()
