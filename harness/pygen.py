"""pygen.py SCRATCH SEED SCRIPT ARGS...: run one of /repo/utils' generators reproducibly.

The generators draw from numpy's global stream; python_tsp (only used by simple_gen to solve the
instance before throwing the solution away) is not installed and replaced by a stand-in. Deletions
outside the scratch directory are refused, whatever the script asks for.
"""
import os
import random
import runpy
import shutil
import sys
import types

scratch, seed, script = os.path.realpath(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
sys.dont_write_bytecode = True
os.chdir(scratch)


def inside(p):
    p = os.path.realpath(p)
    return p.startswith(scratch + os.sep)


def guard(mod, name):
    real = getattr(mod, name)

    def f(path, *a, **k):
        if isinstance(path, (str, bytes, os.PathLike)) and not inside(os.fsdecode(path)):
            raise PermissionError("outside the scratch directory: %r" % (path,))
        return real(path, *a, **k)
    setattr(mod, name, f)


guard(shutil, "rmtree")

import numpy

numpy.random.seed(seed)
random.seed(seed)


def solve(m, *a, **k):
    n = len(m)
    return list(range(n)), float(sum(m[i][(i + 1) % n] for i in range(n)))


pkg = types.ModuleType("python_tsp")
pkg.__path__ = []
for sub in ("exact", "heuristics", "utils", "distances"):
    m = types.ModuleType("python_tsp." + sub)
    m.solve_tsp_dynamic_programming = solve
    m.solve_tsp_brute_force = solve
    m.solve_tsp_branch_and_bound = solve
    m.solve_tsp_local_search = solve
    m.solve_tsp_simulated_annealing = solve
    setattr(pkg, sub, m)
    sys.modules["python_tsp." + sub] = m
sys.modules["python_tsp"] = pkg

sys.path.insert(0, os.path.dirname(script))
sys.argv = [script] + sys.argv[4:]
runpy.run_path(script, run_name="__main__")
