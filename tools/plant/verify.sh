#!/bin/bash
# verify.sh ID: confirms a planted bug of /verif/seeded in a scratch copy
# (/tmp/w/repo): applies, builds, stable tests pass, demo 0 without and nonzero with it.
id=$1; d=/verif/seeded/$id; w=/tmp/w/repo
[ -d $w ] || { mkdir -p /tmp/w; cp -a /repo $w; }
git -C $w checkout -q -- . && git -C $w clean -fdq && git -C $w fetch -q /repo main 2>/dev/null && git -C $w reset -q --hard FETCH_HEAD
rm -rf /tmp/w/demo; mkdir /tmp/w/demo; cp $d/* /tmp/w/demo/; rm -f /tmp/w/demo/*.diff /tmp/w/demo/meta.json
(cd $w && cargo build --offline -q 2>&1 | grep -E '^error' ; timeout 300 bash /tmp/w/demo/demo.sh >/tmp/w/out0 2>&1); r0=$?
git -C $w apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
(cd $w && cargo build --offline -q 2>/tmp/w/build) || { echo "$id: build fails"; grep -A8 -E '^error' /tmp/w/build | head -40; git -C $w checkout -q -- .; exit 2; }
(cd $w && timeout 300 bash /tmp/w/demo/demo.sh >/tmp/w/out1 2>&1); r1=$?
t=$(cd $w && cargo test --offline 2>&1 | grep -E '^test result|FAILED|^error' | tr '\n' ' ' | grep -oE '[0-9]+ passed; [0-9]+ failed' | awk '{p+=$1;f+=$3}END{print p" passed "f" failed"}')
git -C $w checkout -q -- .
echo "$id: clean=$r0 ($(tail -1 /tmp/w/out0)) planted=$r1 ($(tail -1 /tmp/w/out1)) tests: $t"
