#!/bin/bash
# bash check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] ...
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME="${HOME:-/root}" LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export NUMBA_NUM_THREADS=2 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$here:$repo"
export VERIF_REPO="$repo"
cd "$here" || exit 2
exec /opt/venv/bin/python -P -m vh.main "$@"
