#!/bin/bash
# Runs the demonstration beside this file as an extra test of the package in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
pkg=$(cat "$d/pkg" 2>/dev/null || echo .)
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$pkg" "$d" > "$t/overlay.json"
TMPDIR=$t timeout 250 go test $(cat "$d/flags" 2>/dev/null) -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestDemo$' "./$pkg"
