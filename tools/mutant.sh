#!/bin/bash
# mutant.sh PATCH CHECK...: runs checks against a scratch copy of /repo with PATCH applied
patch=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/src "$d/src"
(cd "$d" && patch -p1 -s --no-backup-if-mismatch < "$patch") || { echo "patch does not apply"; exit 3; }
for c in "$@"; do
  (cd /verif && VERIF_REPO=$d VERIF_BUILD=$d/b VERIF_OUT=$d/out python3 check.py $c ${TIER:-quick}) > "$d/log" 2>&1; rc=$?
  echo "$c rc=$rc $(grep -v ^VIOLATION $d/log | head -${LINES_OUT:-1} | cut -c1-400)"
done
python3 - "$d" <<'P'
import shutil, sys
shutil.rmtree(sys.argv[1], ignore_errors=True)
P
