#!/bin/bash
# Compiles the extensions of the current tree once, so the first check need not.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 1
export VERIF_REPO="${VERIF_REPO:-/repo}" PYTHONPATH="$here:${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P'
from vc import repo
print(repo.build_ctrans())
print(repo.build_histogram())
P
