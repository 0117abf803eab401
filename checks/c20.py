import _path, psf
from core import Check
Check("C20", "distinct (nucleus, deformation, multipolarity, photon energy, final energy) with a positive expected coefficient",
      "property-based testing: generated sequences of nuclei, deformations and photon energies, differential oracle against an independent implementation of the resonance forms",
      task_fn=psf.task_fn, tasks_fn=psf.tasks, replay_fn=lambda c: psf.run(c).fails, shrink_fn=psf.shrink).main()
