#!/bin/bash
# Nothing is installed: the checks run from the committed files and build cholmod.c
# from /repo into private scratch directories. This only says early what is missing.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replay
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
for t in gcc clang valgrind; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
/opt/venv/bin/python -c 'import vmon.run, vmon.gen, vmon.core; print("ready")'
