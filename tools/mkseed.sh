#!/bin/bash
# mkseed.sh ID...  -- validate /verif/seeded/ID against a scratch copy of /repo:
#   patch applies, builds, tests pass, demo exits 0 without and non-zero with the patch.
set -u
W=/tmp/seedwt
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/tmp/seedtarget INSTA_WORKSPACE_ROOT=$W
[ -d $W ] || git clone -q /repo $W
for ID in "$@"; do
S=/verif/seeded/$ID
cd $W && git checkout -q -- . && git clean -qfd && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
D=$(mktemp -d); cp -r $S/. $D/; rm -f $D/*.diff $D/meta.json
( unset CARGO_TARGET_DIR; cd $W && timeout 300 bash $D/demo.sh ) >/tmp/seed_$ID.base.log 2>&1; a=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; continue; }
( unset CARGO_TARGET_DIR; cd $W && timeout 300 bash $D/demo.sh ) >/tmp/seed_$ID.bug.log 2>&1; b=$?
cargo nextest run --workspace --all-features --offline --locked --no-fail-fast --test-threads 8 >/tmp/seed_$ID.test.log 2>&1; t=$?
grep -E '^ +FAIL|Summary|^error' /tmp/seed_$ID.test.log | sort -u | head -8
git checkout -q -- .
rm -rf "$D"
echo "$ID: base=$a bug=$b tests=$t"
done
