#!/bin/bash
# check.sh PROPERTY TIER: run one check on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent-pycache
unset PYTHONPATH
exec python3 -B mc/run.py "$@"
