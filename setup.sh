#!/bin/bash
# The framework is plain Python: setup only confirms that what the checks need is here.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1
/opt/venv/bin/python - <<'P'
import importlib, pathlib
import numpy, networkx, pgmpy, pygambit
import rv.ref, rv.gen, rv.monitor
for f in sorted(pathlib.Path("rv/checks").glob("c*.py")):
    importlib.import_module("rv.checks." + f.stem)
print("setup ok")
P
