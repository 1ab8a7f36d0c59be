#!/bin/bash
# seed.sh <seed id> [nocheck]: confirms a planted bug in /repo and undoes it.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
demo=$(mktemp -d /tmp/seeddemo-XXXX); cp -a "$d/." "$demo"; rm -f "$demo"/*.diff "$demo"/meta.json
bash "$demo/demo.sh" >/tmp/seed-clean.log 2>&1; echo "$id: demo unchanged: $? (want 0)"
git apply "$d/patch.diff" || { echo "does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .; rm -rf "$demo"' EXIT
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/seed-out.json 2>&1 | tail -1
bash "$demo/demo.sh" >/tmp/seed-demo.log 2>&1; echo "$id: demo patched: $? (want nonzero): $(tail -1 /tmp/seed-demo.log)"
[ "$2" = nocheck ] || { VERIF_SEED=1 VERIF_TIER=quick /verif/check.sh $prop >/tmp/seed-check.log 2>&1; echo "$id: check $prop: $? (want 1)"; grep -A1 ^VIOLATION /tmp/seed-check.log | head -4; }
