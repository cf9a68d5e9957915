#!/bin/bash
# usage: check.sh Cnn [args] -- run one property's check against /repo's working tree
cd "$(dirname "$0")" || exit 2
W=$(mktemp -d /tmp/mc-XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export PYTHONPATH="$PWD:${MC_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$W/pyc" PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg NUMBA_FUNCTION_CACHE_SIZE=0 TZ=UTC LANG=C.UTF-8
export MPLCONFIGDIR="$W/mpl" XDG_CACHE_HOME="$W/cache" MC_TMP="$W" HOME="$W"
/opt/venv/bin/python -W ignore -m mc.run "$@"
