#!/bin/sh
# nothing to build: the checks need only the interpreter and z3; verify they are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONPATH=/opt/veriftools/pyvenv/lib/python3.12/site-packages PYTHONDONTWRITEBYTECODE=1 \
  /opt/venv/bin/python -c "import z3, numpy, scipy, astropy; print('z3', z3.get_version_string())"
