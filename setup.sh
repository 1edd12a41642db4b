#!/bin/bash
# Nothing to build: the engine is Python, the harnesses are compiled by each
# check.  Verifies that the tools are there.
set -e
cd "$(dirname "$(readlink -f "$0")")"
command -v clang++ g++ python3-vt >/dev/null
python3-vt -c 'import z3, sys; sys.path.insert(0, "engine"); import llvmc, real'
python3-vt -m compileall -q engine checks
mkdir -p evidence
