#!/bin/bash
# tools/mut.sh "PROPS" FILE SED-EXPRESSION: runs checks against a scratch copy of /repo with one edit
d=$(mktemp -d /tmp/mutXXXXXX); cp -a /repo/. $d/
sed -i "$3" $d/$2
if git -C $d diff --quiet; then echo "NO CHANGE: $3"; rm -rf "$d"; exit 2; fi
for p in $1; do EFSW_REPO=$d VERIF_BUILD=/tmp/mutbuild python3 /verif/bin/check $p 2>&1 | grep -E "^VIOLATION|^  [^ ]|^ok|error" | head -3 | cut -c1-220; done
rm -rf "$d"
