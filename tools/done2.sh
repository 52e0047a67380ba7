#!/bin/bash
# done2.sh ID "technique" "note" [hash...]: record a finished property with exactly the given fix commits
cd /verif
ID=$1; T=$2; N=$3; shift 3
python3 tools/addnote.py "$ID" "$T" "$N"
for h in "$@"; do echo "fixed: property=$ID $h $(git -C /repo log -1 --format=%s $h | sed 's/^fix: //')" >> known-findings.txt; done
python3 tools/mkprops.py; python3 tools/mkmanifest.py; git add -A; git commit -qm "$ID: check"; git status --short | head -3
