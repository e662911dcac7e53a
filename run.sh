#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] [--replay FILE] [--family NAME]
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}" LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
# graphix bytecode is neither written nor read (see main.py).
export PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS="${VERIF_NUMBA_THREADS:-2}"
unset PYTHONPYCACHEPREFIX NUMBA_DISABLE_JIT NUMBA_CACHE_DIR PYTHONPATH
[ "$1" = P29 ] && export NUMBA_NUM_THREADS=8
cd "${VERIF_REPO:-/repo}" || exit 2
export PYTHONPATH="$PWD"
exec python -u "$here/vlib/main.py" "$@"
