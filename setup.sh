#!/bin/sh
# Nothing to prepare: every check builds what it needs from /repo's working tree. This only
# verifies that the tools are there.
set -e
cd "$(dirname "$0")"
for t in gcc g++ mpicc mpirun python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
python3 -c 'import sys; sys.dont_write_bytecode = True; import vf.checks'
