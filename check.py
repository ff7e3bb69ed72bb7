#!/opt/venv/bin/python
"""check.py PID [--tier quick|thorough] [--seed N] [--facet NAME[,NAME]] [--scale X] [--replay FILE] [--list]

Runs the generated-input checks (facets) of one property against /repo.  See DESIGN.md.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
_ENV = {"PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8"}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in _ENV.items()) or os.path.realpath(sys.prefix) != "/opt/venv":
    os.environ.update(_ENV)
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
from vt import runner
sys.exit(runner.main(sys.argv[1:]))
