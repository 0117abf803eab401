import _path, rngs
from core import Check
Check("C29", "distinct histories of more than three operations and draws; distinct streams or sets of seeds tested",
      "property-based testing: generated histories of operations on several generators against a (seed, position) model; statistical tests of streams along and across generated seeds",
      task_fn=rngs.task_fn, tasks_fn=rngs.tasks, replay_fn=lambda c: rngs.run(c).fails, shrink_fn=rngs.shrink, prebuild=("api_driver", "i_rng")).main()
