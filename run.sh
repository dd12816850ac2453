#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay FILE] [--scenario NAME] [--workers N]
# Runs one check against the current tree of /repo (pure Python: nothing to build; the
# modules are imported from /repo/src/python and /repo/steps on every run).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
repo="${VERIF_REPO:-/repo}"   # another tree only while developing (tools/bug.sh)
export PYTHONPATH="$here:$repo/src/python:$repo" PYTHONWARNINGS=ignore
cd "$here" && exec /opt/venv-pypy/bin/python -m vlib.main "$@"
