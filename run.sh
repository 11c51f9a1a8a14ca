#!/bin/bash
# run.sh PID [args]: decide one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -W ignore -m symex.runner "$@"
