#!/bin/bash
# tools/sweep.sh "IDS" "SEEDS": runs the checks one after another and prints one line each (or the violation)
cd "$(dirname "$0")/.."
for s in $2; do for p in $1; do
  o=$(VERIF_SEED=$s python3 bin/check $p 2>&1); rc=$?
  echo "seed=$s $p rc=$rc $(echo "$o" | tail -1 | cut -c1-150)"
  if [ $rc != 0 ]; then echo "$o" | grep -v '^ok' | sed 's/w\{20,\}/WW/g' | cut -c1-300 | head -45; for f in replays/$p-violation-*.case; do [ -e "$f" ] && cp "$f" /tmp/fail-$s-$(basename "$f"); done; fi
done; done
