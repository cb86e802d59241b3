#!/bin/bash
# usage: check.sh <property id>
cd "$(dirname "$0")" || exit 2
PY=/opt/veriftools/pyvenv/bin/python3
[ -x "$PY" ] || PY=python3-vt
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "$PY" -m vc.run "$1"
