#!/bin/bash
# catch.sh [seed..]: runs the check of each planted bug's property against a copy with the bug. ALL=1 runs every check.
cd /verif
for s in ${@:-$(ls seeded)}; do
 p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' seeded/$s/meta.json)
 R=/tmp/catchrepo.$$; rm -rf $R; cp -a /repo $R
 git -C $R apply /verif/seeded/$s/patch.diff || { echo "$s: patch does not apply"; continue; }
 ids=$p; [ -n "$ALL" ] && ids=$(ls mc | grep '^c[0-9]' | tr c C)
 for i in $ids; do
  [ -f mc/$(echo $i | tr C c)/main.go ] || { echo "$s: no check $i"; continue; }
  t0=$(date +%s); out=$(VERIF_REPO=$R ./run.sh $i quick 2>&1); rc=$?
  if [ $rc = 1 ]; then echo "$s: $i CAUGHT $(($(date +%s)-t0))s: $(echo "$out" | grep -m1 -B1 'VIOLATION' | head -1 | cut -c1-160)"
  elif [ $rc = 0 ]; then [ -n "$ALL" ] || echo "$s: $i MISSED"; [ -n "$ALL" ] && echo -n "($i missed) "
  else echo "$s: $i BROKEN rc=$rc $(echo "$out" | tail -2)"; fi
 done; [ -n "$ALL" ] && echo
 rm -rf $R
done
