#!/bin/sh
# nothing to build ahead of time: every check compiles /repo's current sources itself. Verify that the tools are there.
set -e
cd "$(dirname "$0")"
command -v clang++-18 >/dev/null && command -v opt-18 >/dev/null && command -v llvm-link-18 >/dev/null
python3-vt -c "import z3, dv.llvm, dv.exec" 
mkdir -p evidence
