#!/bin/bash
# Runs the demonstration next to this file against the code in the current
# directory, as a package that exists only in a build overlay.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/w"
printf '{"Replace":{"%s/zz_demo/lib_test.go":"%s/lib_test.go","%s/zz_demo/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" "$PWD" "$here" > "$tmp/overlay.json"
GOSUMDB=off go test -overlay "$tmp/overlay.json" -vet=off -buildvcs=false -c -o "$tmp/demo" ./zz_demo || exit 4
cd "$tmp/w" && DEMO_DIR="$here" TMPDIR="$tmp/w" GODEBUG=asynctimerchan=0 timeout 200 "$tmp/demo" -test.v -test.timeout 180s
