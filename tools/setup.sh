#!/bin/bash
# Nothing to build: confirm that the interpreter and the libraries of the checks are there.
cd "$(dirname "$0")/.." || exit 1
chmod +x check.py tools/*.py tools/*.sh 2>/dev/null
exec /opt/venv/bin/python -B -c "import numpy, scipy, sympy, pandas, numba, matplotlib, pyneqsys, pygmo, prettytable"
