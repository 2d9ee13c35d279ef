#!/bin/bash
# Nothing to build: the checks encode /repo's current source on every run.
# This only makes sure that the interpreter, z3 and the engine load.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -W ignore -c '
import symex.main
symex.main.load_symbolic()
print("engine loads")
'
