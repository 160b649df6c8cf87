#!/bin/bash
# nothing to compile: check that the interpreter and the code under test import
cd "$(dirname "$0")" || exit 3
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0, 'lib'); import target, score, routes, facts; print('ok')"
