#!/bin/bash
# check.sh <property id> [run.py options]: decide one property on /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export NUMBA_CACHE_DIR="${TMPDIR:-/tmp}/verif_numba_$$"
unset PYTHONPATH
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY="$(command -v python3)"
"$PY" -W ignore "$here/run.py" "$@"
rc=$?
rm -rf "${NUMBA_CACHE_DIR:?}"
exit $rc
