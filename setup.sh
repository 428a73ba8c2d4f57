#!/bin/bash
# Nothing is cached between runs: every check builds what it needs from /repo. This only verifies the toolchain.
set -e
cd "$(dirname "$0")"
for t in clang clang++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -c 'import plan, check' 
echo ok
