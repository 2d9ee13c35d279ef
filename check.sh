#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [options]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent/pycache
exec /opt/venv/bin/python -B -W ignore -m symex.main "$@"
