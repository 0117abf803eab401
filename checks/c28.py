import _path, mpi
from core import Check
Check("C28", "distinct parallel runs (reaction, energy, processes, events, window, first seed) or refusals on more than one process",
      "differential testing: generated runs of the MPI build on 1 to 7 processes against the serial program, with injected faults (output file of a process, data files, options); a hang, a missing process or a different byte fails",
      task_fn=mpi.run, tasks_fn=mpi.make_tasks, replay_fn=lambda c: mpi.run(c).fails, shrink_fn=mpi.shrink, prebuild=("cgmf", "cgmf_mpi"), workers=5).main()
