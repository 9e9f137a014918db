#!/bin/bash
# tryseed.sh ID [notest]: demo on the clean tree, demo with the patch, then tests with the patch, in a private mount-free copy is not possible
# (demos name /repo), so this applies the patch to /repo and always undoes it.
I=$1; S=/verif/seeded/$I
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash $S/demo.sh > /tmp/demo.clean.log 2>&1; echo "clean demo rc=$?"
git apply $S/patch.diff || exit 1
bash $S/demo.sh > /tmp/demo.bug.log 2>&1; echo "patched demo rc=$? ($(tail -n 1 /tmp/demo.bug.log | cut -c1-150))"
if [ -n "$2" ]; then
  ( cd /verif && python3 check.py $2 quick 2>&1 | tail -n 4 | cut -c1-300 )
fi
git checkout -q -- .
