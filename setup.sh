#!/bin/bash
# Nothing is compiled: check that the interpreter and the modules the checks need are there.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, mpmath, sympy; import mc.core, mc.grid" || exit 1
mkdir -p evidence replays
