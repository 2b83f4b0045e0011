#!/bin/bash
# bash /verif/run.sh C01 [--tier quick|thorough] | bash /verif/run.sh --replay FILE
# always runs the code of /repo's current working tree (never byte code)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:${DCF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX="$PWD/.nopyc" MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python
exec "$PY" -W ignore -m mc.main "$@"
