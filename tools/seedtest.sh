#!/bin/bash
# seedtest.sh ID...: checks planted changes in a scratch copy of /repo: demo passes without and fails
# with the change, which builds and passes the tests.
for id in "$@"; do
s=/verif/seeded/$id
d=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$d/repo"; mkdir "$d/s"; cp -r $s/. "$d/s/"; rm -f "$d/s/patch.diff" "$d/s/meta.json"
cd "$d/repo"; git checkout -q -- . 
bash "$d/s/demo.sh" > "$d/o1" 2>&1; a=$?
git apply $s/patch.diff || echo "PATCH DOES NOT APPLY"
timeout -k 5 200 cargo nextest run --workspace --lib --tests --examples --offline --no-fail-fast --test-threads 8 --user-config-file none --tool-config-file vp:/opt/vp/nextest.toml --profile vp > "$d/t" 2>&1; t=$?
bash "$d/s/demo.sh" > "$d/o2" 2>&1; b=$?
echo "$id: clean demo rc=$a (want 0), tests rc=$t (want 0), planted demo rc=$b (want nonzero)"
[ $a = 0 ] || tail -5 "$d/o1"; [ $t = 0 ] || grep -E "FAIL|error|TIMEOUT" "$d/t" | head; [ $b != 0 ] || tail -5 "$d/o2"; [ $b = 3 ] && tail "$d/o2"
cd /; rm -rf "$d"
done
