import _path, san
from core import Check


def tasks(tier, seed):
    return san.tasks(200, 120, 60, 80, seed) if tier == "thorough" else san.tasks(20, 20, 24, 12, seed)


Check("C23", "operations that generate events, yields or a single decay (not mere clean-ups), distinct",
      "generated call histories, level files and command lines under AddressSanitizer and UndefinedBehaviorSanitizer; differential between two fillings of uninitialised memory",
      san.run, tasks, lambda c: san.run(c).fails, san.shrink, prebuild=("api_driver:asan", "cgmf:asan", "api_driver:zero", "api_driver:pattern")).main()
