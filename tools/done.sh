#!/bin/bash
# done.sh ID LASTHASH "technique" "note": record a finished property
cd /verif
python3 tools/addnote.py "$1" "$3" "$4"
for h in $(git -C /repo log --format=%h $2..HEAD | tac); do echo "fixed: property=$1 $h $(git -C /repo log -1 --format=%s $h | sed 's/^fix: //')" >> known-findings.txt; done
python3 tools/mkprops.py; python3 tools/mkmanifest.py; git add -A; git commit -qm "$1: check"; git status --short | head -3; tail -2 known-findings.txt
