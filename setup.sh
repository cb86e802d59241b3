#!/bin/bash
# offline sanity check of the tools the checks use; nothing is built ahead of time
cd "$(dirname "$0")" || exit 2
PY=/opt/veriftools/pyvenv/bin/python3; [ -x "$PY" ] || PY=python3-vt
"$PY" -c 'import z3; print("z3", z3.get_version_string())' || exit 1
cvc5 --version | head -1 || exit 1
/usr/bin/clang++ --version | head -1 || exit 1
mkdir -p evidence
