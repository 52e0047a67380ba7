#!/bin/bash
# mut.sh FILE SED_EXPR CHECK...   try a temporary change of /repo against checks
f=/repo/src/PROPOSAL/$1; e="$2"; shift 2
cp "$f" /tmp/mut.bak; sed -i -E "$e" "$f"
if cmp -s "$f" /tmp/mut.bak; then echo "NO CHANGE"; exit 1; fi
diff /tmp/mut.bak "$f" | head -6
for c in "$@"; do timeout 880 python3 /verif/vk/check.py $c | cut -c1-220 | tail -4; done
cp /tmp/mut.bak "$f"
git -C /repo status --short
