#!/bin/sh
# check.sh PROPERTY: builds the simulator from /repo's working tree, runs the
# check. Exit 0: held; 1: violation; anything else: the check could not run.
cd "$(dirname "$0")" || exit 2
root=$(pwd)
(cd sim && cargo build --offline --quiet 2>"$root/.build.$1.log") || { cat ".build.$1.log" >&2; rm -f ".build.$1.log"; echo "build failed" >&2; exit 2; }
rm -f ".build.$1.log"
exec ./sim/target/debug/sim check "$1" "$root"
