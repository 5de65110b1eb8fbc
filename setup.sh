#!/bin/bash
# Warms the build cache; every check builds from /repo on its own all the same.
set -eu
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
cp -r "$VERIF/harness" "$D/harness"
cd "$D/harness"
go build -tags all -o "$D/vrun" .
