#!/bin/bash
# tools/seeds.sh [ID...]: runs the check of the property of each planted bug against a scratch copy of /repo with it
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  d=$(mktemp -d /tmp/seedXXXXXX); cp -a /repo/. "$d/"
  git -C "$d" apply "$PWD/seeded/$s/patch.diff" || { echo "$s does not apply"; rm -rf "$d"; continue; }
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")}
  for q in $p; do
    o=$(EFSW_REPO=$d VERIF_BUILD=/tmp/seedbuild python3 bin/check $q 2>&1); rc=$?
    echo "$s $q rc=$rc $(echo "$o" | grep -A1 ^VIOLATION | grep -v ^VIOLATION | head -1 | cut -c1-150)"
  done
  rm -rf "$d"
done
rm -rf /tmp/seedbuild
