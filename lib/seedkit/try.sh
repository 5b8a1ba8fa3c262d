#!/bin/bash
# try.sh id...: confirm planted bugs in a scratch copy: applies, builds, tests pass, demo fails with / passes without
for id in "$@"; do
s=/verif/seeded/$id
w=/tmp/seedwt; rm -rf /tmp/seedwt; cp -a ${R:-/repo} /tmp/seedwt
cd $w
(bash $s/demo.sh >/tmp/seed-clean.log 2>&1); c=$?
git apply $s/patch.diff || { echo "$id: does not apply"; continue; }
export CARGO_TARGET_DIR=/tmp/seedtarget
. /opt/vp/env.sh
cargo build --offline --quiet 2>/tmp/seed-build.log || { echo "$id: no build"; tail -20 /tmp/seed-build.log; continue; }
cargo test --offline -p lexan -p lalr1 -p alalr1 >/tmp/seed-test.log 2>&1; t=$?
unset CARGO_TARGET_DIR
(bash $s/demo.sh >/tmp/seed-bug.log 2>&1); b=$?
echo "$id: clean demo $c, tests $t, demo with bug $b"
[ $c -ne 0 ] && tail -5 /tmp/seed-clean.log
tail -${N:-3} /tmp/seed-bug.log
cd /; rm -rf /tmp/seedwt
done
