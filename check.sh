#!/bin/bash
# check.sh <property> : build the monitor of the property from /repo's current
# working tree and run it. Tier and seed come from VERIF_TIER and VERIF_SEED.
set -u
id=$1
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
. "$here/env.sh"
line=$(grep -E "^$id " "$here/harness/groups.txt") || { echo "unknown property $id" >&2; exit 2; }
set -- $line
group=$2; race=${3:-}
work=$(mktemp -d /tmp/vcheck-$id-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
flags=(-tags verif)
[ "$race" = race ] && flags+=(-race)
# package release needs the generated, git-ignored release/head.go
if [ ! -e /repo/release/head.go ]; then
	echo "{\"Replace\":{\"/repo/release/head.go\":\"$here/harness/overlay/head.go\"}}" > "$work/overlay.json"
	flags+=(-overlay "$work/overlay.json")
fi
cd "$here/harness" || exit 2
if ! go build "${flags[@]}" -o "$work/mon" "./cmd/$group" 2> "$work/build.log"; then
	cat "$work/build.log" >&2
	echo "$id: inconclusive: the monitor does not build" >&2
	exit 2
fi
export VMON_BUILDFLAGS="${flags[*]}"
"$work/mon" "$id"
