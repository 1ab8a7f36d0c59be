#!/bin/bash
# exit 0: the property holds for the input below, 1: it does not
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1 TMPDIR=$work
root=$(pwd)
echo "{\"Replace\":{\"$root/zzdemo/main.go\":\"$here/main.go.txt\"}}" > "$work/o.json"
go build -overlay "$work/o.json" -o "$work/demo" ./zzdemo || exit 2
timeout 120 "$work/demo" "$work"
