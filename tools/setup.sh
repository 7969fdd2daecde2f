#!/bin/bash
# Nothing is built: make sure that both interpreters and biggus are usable.
set -e
cd "$(dirname "$0")/.."
/opt/veriftools/pyvenv/bin/python -c 'import hypothesis'
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c 'import biggus, numpy, dask'
mkdir -p evidence replays
