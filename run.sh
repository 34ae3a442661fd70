#!/bin/bash
# run.sh Cxx [args] | run.sh --replay FILE : one check, in a clean environment
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
exec env -u PYTHONPATH -u PYTHONSTARTUP PYTHONDONTWRITEBYTECODE=1 \
  PYTHONHASHSEED="${DST_HASHSEED:-0}" OMP_NUM_THREADS=1 \
  OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 \
  /opt/venv/bin/python -W ignore "$here/check.py" "$@"
