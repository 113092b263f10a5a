#!/bin/bash
# testbug.sh ID: applies the planted change to /repo, runs its demo (expects failure) and its property's check (prints), reverts
id=$1
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain)" ] || { echo dirty; exit 3; }
bash $d/demo.sh > /tmp/demo_clean.txt 2>&1; a=$?
git apply $d/patch.diff || exit 4
bash /opt/vp/build.sh > /tmp/build_bug.txt 2>&1; bb=$?
bash $d/demo.sh > /tmp/demo_bug.txt 2>&1; b=$?
cd /verif && python3-vt check.py ${2:-$prop} > /tmp/check_bug.txt 2>&1; c=$?
git -C /repo checkout -- .
echo "$id $prop demo clean=$a bug=$b build=$bb check=$c $(grep -c '^  \[' /tmp/check_bug.txt) findings"
