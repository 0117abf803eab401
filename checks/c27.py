import _path, pfn
from core import Check
Check("C27", "distinct (target, energy, level scheme) spectra compared bin by bin, and events with at least one pre-fission neutron placed within its predicted spectrum",
      "property-based testing: generated targets, energies, level schemes and emission histories; differential oracle against an independent exciton model and evaporation spectra, probability-integral-transform test of sampled energies",
      task_fn=pfn.task_fn, tasks_fn=pfn.tasks, replay_fn=lambda c: pfn.run(c).fails, shrink_fn=pfn.shrink).main()
