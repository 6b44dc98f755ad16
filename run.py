#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py C01 [--tier thorough] [--seed N] [--replay F]."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VF_PYTHON", "/opt/venv/bin/python")

if __name__ == "__main__":
    os.chdir(HERE)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    env["PYTHONWARNINGS"] = "ignore"
    os.execve(PY, [PY, "-m", "vf.driver", *sys.argv[1:]], env)
