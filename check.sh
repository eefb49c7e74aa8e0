#!/bin/bash
# usage: check.sh Cnn   (tier from VERIF_TIER, seed from VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export SETUPTOOLS_SCM_PRETEND_VERSION=0.8.0
export MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/cache/matplotlib}"
exec /opt/venv/bin/python -m rv.run "$@"
