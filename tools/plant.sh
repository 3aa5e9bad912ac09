#!/bin/bash
# plant.sh ID PROP "needs" "breaks" : the bug is the diff of the scratch copy /tmp/plant/repo; seeded/ID/main.rs demonstrates it
d=/verif/seeded/$1; w=/tmp/plant/repo
cp /verif/tools/demo.sh $d/demo.sh
git -C $w diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cd $w || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=/tmp/plant/target cargo test --offline >/tmp/plant/test.log 2>&1; t=$?
bash $d/demo.sh >/tmp/plant/demo1.log 2>&1; a=$?
git checkout -q -- .
bash $d/demo.sh >/tmp/plant/demo0.log 2>&1; b=$?
echo "$1: tests=$t(0) demo with=$a(nonzero) without=$b(0)"
tail -3 /tmp/plant/demo1.log
[ $t = 0 -a $a != 0 -a $b = 0 ] || { echo BAD; exit 1; }
# the check runs from a copy of /verif beside the scratch copy of the repository (the harness finds the crate by relative path)
mkdir -p /tmp/plant/verif && cp -a /verif/bin /verif/spec /verif/harness /verif/known_findings.json /tmp/plant/verif/
git apply $d/patch.diff || exit 1
cd /tmp/plant/verif
for p in $2 $5; do python3 bin/check.py $p 2>&1 | tail -1; done
git -C $w checkout -q -- .
