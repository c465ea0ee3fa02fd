"""nndrive.py UTILS SEED SIZE: run NN_approx's tracer for a given seed and size (through pygen.py)."""
import importlib
import sys

sys.path.insert(0, sys.argv[1])
mod = importlib.import_module("NN_approx")
seed, size = int(sys.argv[2]), int(sys.argv[3])
try:
    import inspect
    inspect.signature(mod.main).bind(seed=seed, size=size)
except (AttributeError, TypeError):
    sys.exit(97)
mod.main(seed=seed, size=size)
