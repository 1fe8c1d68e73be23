"""Entry point: ``run.py <property> [--replay FILE]`` (see DESIGN.md)."""
import os
import sys

_ENV = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}
if any(os.environ.get(k) != v for k, v in _ENV.items()):
    os.environ.update(_ENV)
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from pbt import core                                        # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
