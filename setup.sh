#!/bin/bash
# warms the Go build cache and checks that the tools are there
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r harness "$d/harness"
(cd "$d/harness" && go build -o "$d/vh" .)
"$d/vh" -list
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
