#!/bin/bash
# testseed.sh <id>...: demo on the unchanged and patched scratch copy
for i in "$@"; do S=/verif/seeded/$i; cd /tmp/sw/repo; git checkout -q -- .
bash $S/demo.sh >/tmp/sw/demo0.log 2>&1; a=$?
git apply $S/patch.diff || { echo "$i: does not apply"; continue; }
bash $S/demo.sh >/tmp/sw/demo1.log 2>&1; b=$?; git checkout -q -- .
echo "$i: unchanged=$a patched=$b $(tail -1 /tmp/sw/demo1.log)"; done
