#!/usr/bin/env python3
"""
Runs the checks of one property:  run.py P01 [--tier quick|thorough] [--case NAME] [--jobs N]
Replays a counterexample on the real code:  run.py --replay FILE
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if os.environ.get("VERIF_CHILD") != "1":
    import shutil
    import subprocess
    import tempfile
    tmp = tempfile.mkdtemp(prefix="verif-")
    env = dict(os.environ, VERIF_CHILD="1", MPLBACKEND="Agg", NUMBA_CACHE_DIR=tmp + "/numba",
               MPLCONFIGDIR=tmp + "/mpl", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    try:
        rc = subprocess.call([VENV, "-X", "utf8", os.path.abspath(__file__)] + sys.argv[1:], env=env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)
sys.path.insert(0, HERE)
if sys.path[1:2] and os.path.abspath(sys.path[1] or ".") == HERE:
    del sys.path[1]
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
from symex import runner                       # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
