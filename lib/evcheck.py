import evt, yld
from core import Check


def event_check(prop, oracle, rule, *, n_quick, n_thorough, specs=None, technique=None, assumptions=None, tw=None, t=None,
                reactions=None, per_task=25, yoracle=None, y_quick=0, y_thorough=0, y_len=150, post_fn=None,
                extra_tasks=None, extra_run=None, extra_shrink=None):
    """events through the public interface judged by `oracle`, yields-only runs judged by `yoracle`, and other
    tasks (dicts with a true "stat" entry) judged by `extra_run`"""
    def tasks(tier, seed):
        th = tier == "thorough"
        ts = evt.make_tasks(n_thorough if th else n_quick, per_task, seed, prop, specs or evt.FULL, tw=tw, t=t, reactions=reactions)
        if yoracle:
            ts = yld.make_tasks(y_thorough if th else y_quick, y_len, seed, prop, reactions=reactions) + ts
        if extra_tasks:
            ts = extra_tasks(th, seed) + ts
        return ts

    def replay(c):
        if c.get("stat"):
            return extra_run(c).fails
        return yld.replay(c, yoracle) if c.get("yields") else evt.replay(c, oracle)

    def shrink(c):
        if c.get("stat"):
            return extra_shrink(c) if extra_shrink else []
        return yld.shrink(c) if c.get("yields") else evt.shrink(c)
    return Check(prop, rule, technique or "generated reactions, energies, seeds and level schemes; per-event oracle",
                 task_fn=_Task(oracle, yoracle, extra_run), tasks_fn=tasks, replay_fn=replay, shrink_fn=shrink, assumptions=assumptions, post_fn=post_fn)


class _Task:
    def __init__(self, oracle, yoracle, extra):
        self.oracle, self.yoracle, self.extra = oracle, yoracle, extra

    def __call__(self, task):
        if task.get("stat"):
            return self.extra(task)
        if task.get("yields"):
            return yld.run_task(task, self.yoracle)
        return evt.run_task(task, self.oracle)
