#!/bin/bash
# development tool: run each planted bug's check against it in a scratch copy (never /repo)
W=/tmp/w/sc; mkdir -p $W
for d in ${@:-/verif/seeded/*}; do d=${d%/}; [ -d "$d" ] || d=/verif/seeded/$d
  rm -rf $W/repo; mkdir -p $W/repo; (cd /repo && tar c --exclude=target --exclude=.git .) | tar x -C $W/repo
  (cd $W/repo && git init -q . 2>/dev/null; git apply $d/patch.diff) || echo "PATCH FAILS"
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  VERIF_REPO=$W/repo VERIF_CACHE=$W/cache python3 /verif/check.py $p > $W/out 2>&1; rc=$?
  echo "$(basename $d) $p rc=$rc $(grep -h 'note:\|broken' $W/out | head -1 | cut -c1-200)"
done
