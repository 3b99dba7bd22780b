#!/bin/bash
# usage: check.sh ID [quick|thorough] -- rebuilds from /repo's working tree and runs the check.
cd "$(dirname "$0")/.." || exit 2
mkdir -p build
bash sim/build.sh >build/log.$$ 2>&1 || { cat build/log.$$; echo "BUILD FAILED"; exit 2; }
exec ./build/dsim check "$1" "${2:-quick}"
