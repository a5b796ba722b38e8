#!/bin/bash
# run.sh <property> [quick|thorough] [--replay FILE]
# Runs one check against the code in /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
id="$1"; shift
case "$1" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$here:$VERIF_REPO" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg LC_ALL=C.UTF-8 TQDM_DISABLE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=2 NUMEXPR_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m vc.main "$id" "$@"
