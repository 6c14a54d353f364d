#!/bin/bash
# mkseed.sh ID : takes the uncommitted diff of the scratch worktree /tmp/wt as seeded/ID/patch.diff and confirms it:
# builds + stable tests pass with it, demo exits 0 without and non-zero with it.
set -u
id=$1; d=/verif/seeded/$id
[ -f $d/demo.sh ] || { echo "no demo"; exit 1; }
git -C /repo status --short | grep -v '^??' && { echo "repo dirty"; exit 1; }
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
T=/tmp/seedrun; mkdir -p $T/demo; cp $d/* $T/demo/ 2>/dev/null; cp -r $d/stubs $T/demo/ 2>/dev/null; rm -f $T/demo/patch.diff $T/demo/meta.json
cd /repo && bash $T/demo/demo.sh >$T/clean.log 2>&1; a=$?
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/test.sh $T/out.json >$T/build.log 2>&1; b=$?
cd /repo && timeout 300 bash $T/demo/demo.sh >$T/bug.log 2>&1; c=$?
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
echo "seed $id: demo clean=$a (want 0), tests rc=$b $(cat $T/out.json | tr -d '\n'), demo with bug=$c (want !=0)"
tail -3 $T/bug.log
