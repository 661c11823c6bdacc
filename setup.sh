#!/bin/bash
# nothing is installed: checks run from the committed files with the preinstalled interpreter and z3
cd "$(dirname "$0")"
mkdir -p evidence/replay
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); from symx import harness, core, snp, pyx; import z3; print("ok", z3.get_version_string())'
