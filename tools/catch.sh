#!/bin/bash
# catch.sh ID [PROPERTY...]: runs checks (by default that of the property in meta.json) against a copy of /repo with the planted change.
id=$1; shift
s=/verif/seeded/$id
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
d=$(mktemp -d /tmp/catch.XXXXXX)
cp -a /repo "$d/repo"; git -C "$d/repo" checkout -q -- .; git -C "$d/repo" apply $s/patch.diff
for p in "$@"; do
VERIF_REPO=$d/repo VERIF_BUILD=$d/b VERIF_EVIDENCE=$d/e python3 /verif/run.py $p quick > "$d/o" 2>&1; rc=$?
echo "$id $p: rc=$rc $(grep -m1 VIOLATION "$d/o" | cut -c1-60) | $(head -1 "$d/o" | cut -c1-150)"
[ $rc = 2 ] && cat "$d/o"
done
rm -rf "$d"
