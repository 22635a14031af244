#!/bin/sh
# replay.sh FILE: rebuilds and runs a reported plan again.
root=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1")
(cd "$root/sim" && cargo build --offline --quiet 2>/dev/null) || exit 2
exec "$root/sim/target/debug/sim" replay "$f"
