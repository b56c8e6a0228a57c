#!/bin/bash
# seed.sh ID: takes the uncommitted change of the scratch copy /tmp/w/repo as the patch of
# $V/seeded/ID, and confirms it: builds, passes the tests, demo passes without and
# fails with it. The scratch copy is reset afterwards.
set -e
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; d=$V/seeded/$id; w=/tmp/w/repo
cd $w
if [ -n "$(git diff)" ]; then git diff > $d/patch.diff; git checkout -q -- .; fi
cd $w && git apply --check $d/patch.diff
bash -c "cd $w && timeout 300 bash $d/demo.sh" > /tmp/w/d0 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -20 /tmp/w/d0; exit 1; }
git apply $d/patch.diff
r=0; bash -c "cd $w && timeout 300 bash $d/demo.sh" > /tmp/w/d1 2>&1 || r=$?
tail -3 /tmp/w/d1
git checkout -q -- .
[ $r != 0 ] || { echo "$id: demo passes with the patch"; exit 1; }
echo "$id ok (demo rc=$r)"
