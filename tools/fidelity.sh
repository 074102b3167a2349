#!/bin/bash
# usage: runfid.sh outdir [paths...]
cd /repo
export PYTHONPATH=/verif/shim:/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
f=$2
n=$(echo $f | tr '/' '_')
timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --tb=short --timeout=120 -o addopts="" "$f" > $1/$n.log 2>&1
