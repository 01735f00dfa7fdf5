#!/bin/bash
# Nothing to compile: the checks import /repo directly.  Verify that the interpreter and its libraries are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" -c 'import sympy, numpy; print("sympy", sympy.__version__, "numpy", numpy.__version__)'
