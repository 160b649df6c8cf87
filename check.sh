#!/bin/bash
# usage: check.sh Cnn [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 3
T=$(mktemp -d /tmp/verifXXXXXX)
trap 'rm -rf -- "$T"' EXIT
export TMPDIR="$T" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HOME="$T" LC_ALL=C.UTF-8
/opt/venv/bin/python lib/runner.py "$@"
rc=$?
exit $rc
