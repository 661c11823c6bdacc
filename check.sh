#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--only regex] [--replay file] [-v]
cd "$(dirname "$0")"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); from symx import harness; sys.exit(harness.main(sys.argv[1:]))' "$@"
