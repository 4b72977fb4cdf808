#!/usr/bin/env python3
"""Usage: check.py <property id>.  VERIF_TIER=quick|thorough, VERIF_SEED=<n>."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    env.pop("PYTHONPATH", None)
    os.execve(VENV, [VENV, os.path.join(HERE, "check.py"), *sys.argv[1:]], env)
sys.path.insert(0, os.path.join(HERE, "harness"))
import framework  # noqa: E402

if __name__ == "__main__":
    framework.main(sys.argv[1])
