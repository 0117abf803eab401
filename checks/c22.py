import _path, mcf
from core import Check
Check("C22", "events and yields lines of (n,f) reactions at energies where more than one fission chance has non-zero probability, distinct (reaction, energy, seed)",
      "property-based testing: generated energies concentrated where the tabulated probabilities change, z / Poisson tests against the interpolated tables, per-event energy bounds",
      task_fn=mcf.run, tasks_fn=mcf.make_tasks, replay_fn=lambda c: mcf.run(c).fails, shrink_fn=mcf.shrink).main()
