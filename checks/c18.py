import _path, hf
from core import Check
Check("C18", "distinct decaying states with more than three final states and an allowed transition; sampled cascades counted in blocks of 50",
      "property-based testing: generated nuclei, level schemes, energies, spins and parities; exact differential oracle (written-out sum over neutron and photon channels) and two-sample chi-square tests of sampled cascades",
      task_fn=hf.task_fn, tasks_fn=hf.tasks, replay_fn=lambda c: hf.run(c).fails, shrink_fn=hf.shrink).main()
