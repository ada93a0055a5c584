#!/bin/bash
# catch.sh [ID...]: runs, for each planted bug, the check of its property against a scratch copy with the bug
cd /verif/seeded || exit 1
for id in ${@:-$(ls)}; do
  p=$(python3 -c "import json,sys; print(json.load(open('$id/meta.json'))['property'])")
  echo "$id $(/verif/tools/mutant.sh $id/patch.diff $p)"
done
