"""setup_cmd: nothing has to be built; the library, its dependencies and the machinery must be importable."""

import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import absyn, env, fam, mutate, pool, sched, sem, setorder, sread  # noqa: E402,F401

for i in range(1, 30):
    importlib.import_module("mc.checks.c%02d" % i)
print("library at", env.pddl.__file__ if hasattr(env, "pddl") else "?")
