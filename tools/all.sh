#!/bin/sh
# all quick checks one after another; arguments: ids (default: all)
cd "$(dirname "$0")/.." || exit 2
[ $# = 0 ] && set -- $(seq -f C%02g 1 21) C24
for p; do s=$(date +%s); ./check.sh "$p" >"/tmp/all.$p.log" 2>&1; echo "$p rc=$? $(($(date +%s)-s))s"; grep -h "VIOLATION" "/tmp/all.$p.log"; done
