#!/usr/bin/env python3
"""Entry point of every check:  check.py C07 --tier quick [--replay FILE].

Re-executes itself under the interpreter /repo is installed for, with a fixed
environment (single-threaded BLAS, fixed hash seed), then hands over to vmon.core.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

FIXED = {
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "VMON_CHILD": "1",
}

if os.environ.get("VMON_CHILD") != "1":
    env = dict(os.environ)
    env.update(FIXED)
    env.pop("PYTHONPATH", None)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__), *sys.argv[1:]], env)

sys.path.insert(0, HERE)
from vmon import core  # noqa: E402

sys.exit(core.main(sys.argv[1:]))
