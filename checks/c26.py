import _path, faults
from core import Check
Check("C26", "distinct (reaction, fault) pairs where the fault mattered: the run was refused, or (paths, working directory) had to find the data elsewhere",
      "fault injection over generated reactions: data files and table entries removed, data paths redirected; oracle: refusal with message and no event, or output identical to the complete data",
      task_fn=faults.run, tasks_fn=faults.tasks, replay_fn=lambda c: faults.run(c).fails, shrink_fn=faults.shrink, prebuild=("api_driver", "cgmf")).main()
