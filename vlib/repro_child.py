"""Child process of P37: run scenarios in the given order, write their steps to a pipe.

argv: file descriptor to write to, comma-separated scenario numbers.
"""

import os
import pickle
import sys
import types
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
for name in ("numpy", "numba", "scipy.linalg", "networkx", "sympy", "quimb", "quimb.tensor"):
    try:
        __import__(name)
    except ImportError:
        pass
sys.pycache_prefix = "/nonexistent-pycache"
if not (Path.cwd() / "graphix" / "_version.py").exists():
    v = types.ModuleType("graphix._version")
    v.__version__ = "0"
    sys.modules["graphix._version"] = v

if __name__ == "__main__":
    import lazyjit

    lazyjit.install()
    import workload

    steps = {j: list(workload.scenario(j)) for j in map(int, sys.argv[2].split(","))}
    with os.fdopen(int(sys.argv[1]), "wb") as f:
        pickle.dump({"steps": steps, "hash": hash("graphix")}, f)
    sys.stdout.flush()
    os._exit(0)
