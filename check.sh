#!/bin/sh
# usage: check.sh <property> [quick|thorough]; the code under test comes from /repo/src
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
PY=${MC_PYTHON:-/opt/venv/bin/python}
id=$1
tier=${2:-quick}
shift; [ $# -gt 0 ] && shift
export PYTHONPATH="${MC_SRC:-/repo/src}:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
exec "$PY" -W ignore -m mc.run "$id" --tier "$tier" "$@"
