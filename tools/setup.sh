#!/bin/bash
# Nothing to build ahead of time: every check regenerates its encoding from
# /repo's sources.  This only confirms that the tools are there.
set -e
cd "$(dirname "$0")/.."
for t in cbmc goto-cc gcc ar cvc5 z3 python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -c 'import sys; sys.path.insert(0, "tools"); import spec, vp'
mkdir -p evidence out
echo "tools present"
