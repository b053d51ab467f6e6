#!/bin/bash
# mkseed.sh <id>: takes the uncommitted change of the scratch copy /tmp/sw/repo, checks it (build, tests, demo), writes
# seeded/<id>/patch.diff and reverts the copy. seeded/<id>/{demo.sh,meta.json} must exist.
S=/verif/seeded/$1; W=/tmp/sw/repo
cd $W && git diff > $S/patch.diff && [ -s $S/patch.diff ] || { echo "no change"; exit 1; }
(cd /repo && bash $S/demo.sh >/tmp/sw/demo0.log 2>&1); a=$?
cd $W; bash $S/demo.sh >/tmp/sw/demo1.log 2>&1; b=$?
git checkout -q -- .
echo "$1: demo unchanged=$a patched=$b"
[ $a = 0 ] && [ $b != 0 ]
