#!/bin/bash
# Warms the build cache: the checks build what they need themselves.
cd "$(dirname "$0")" || exit 1
. ./env.sh
cd harness || exit 1
flags=()
work=$(mktemp -d /tmp/vsetup-XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
if [ ! -e /repo/release/head.go ]; then
	echo "{\"Replace\":{\"/repo/release/head.go\":\"$PWD/overlay/head.go\"}}" > "$work/overlay.json"
	flags+=(-overlay "$work/overlay.json")
fi
for g in $(awk '{print $2}' groups.txt | sort -u); do
	race=()
	grep -q " $g race" groups.txt && race=(-race)
	go build "${flags[@]}" "${race[@]}" -o "$work/$g" "./cmd/$g" || echo "setup: $g does not build" >&2
done
exit 0
