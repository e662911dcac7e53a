import os
import sys
import types
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
# Third-party packages may use their installed bytecode; graphix itself is always compiled from
# source (a stale .pyc could hide an edit of the tree under test).
for name in ("numpy", "numba", "scipy.linalg", "networkx", "sympy", "quimb", "quimb.tensor", "matplotlib"):
    try:
        __import__(name)
    except ImportError:
        pass
sys.pycache_prefix = "/nonexistent-pycache"
# graphix/_version.py is generated and git-ignored; its content is irrelevant to every property.
if not (Path.cwd() / "graphix" / "_version.py").exists():
    v = types.ModuleType("graphix._version")
    v.__version__ = "0"
    sys.modules["graphix._version"] = v
import core  # noqa: E402

if __name__ == "__main__":
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
