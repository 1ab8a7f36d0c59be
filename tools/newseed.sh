#!/bin/bash
# newseed.sh <seed id> <property> <needs> <what_it_breaks>: takes the diff of
# /repo as patch, main.go.txt from stdin, undoes the diff and confirms the bug.
d=/verif/seeded/$1; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"; git -C /repo checkout -q -- .
cat > "$d/main.go.txt"; cp /verif/tools/demo.sh "$d/demo.sh"
python3 - "$@" > "$d/meta.json" <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
bash /verif/tools/seed.sh "$1" $5
