#!/bin/bash
# Builds the simulator and the product's sources (from /repo's working tree) into
# /verif/build. Objects are cached by the hash of everything they are made from.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"; V="$(dirname "$HERE")"
REPO="${REPO:-/repo}"; B="${SIM_BUILD:-$V/build}"
mkdir -p "$B/obj" || exit 2
exec 9>"$B/.lock"; flock 9
exec python3 "$HERE/build.py" "$REPO" "$HERE" "$B"
