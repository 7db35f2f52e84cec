#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs one check against the code in /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
shift
export PYTHONPATH="$here/lib:$here/lib/shim:${VERIF_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export PROJ_NETWORK=OFF
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python "$here/checks/$(echo "$id" | tr 'A-Z' 'a-z').py" "$@"
