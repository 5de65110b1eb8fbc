#!/bin/bash
# Usage: check.sh PROPERTY quick|thorough [CASE]
# Builds the monitors against /repo's current working tree and runs them.
# Exit: 0 held on everything explored, 1 violation, 2 no verdict.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
P=${1:?property}; TIER=${2:-quick}; ONLY=${3:-}
SEED=${VERIF_SEED:-1}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off TZ=UTC
D=$(mktemp -d "${TMPDIR:-/tmp}/verif-$P-XXXXXX") || exit 2
trap 'rm -rf "$D"' EXIT
# The harness is built from a copy, so that the go command can never rewrite
# committed files.
cp -r "$VERIF/harness" "$D/harness" || exit 2
RACE=
case "$P" in P15) RACE=-race; export CGO_ENABLED=1;; esac
cd "$D/harness" || exit 2
if ! go build $RACE -tags "$(echo "$P" | tr A-Z a-z)" -o "$D/vrun" . 2>"$D/build.log"; then
  cat "$D/build.log" >&2
  exit 2
fi
export VERIF_REPO=${VERIF_REPO:-/repo}
"$D/vrun" -prop "$P" -tier "$TIER" -seed "$SEED" -verif "$VERIF" -only "$ONLY"
RC=$?
case $RC in 0|1) exit $RC;; *) exit 2;; esac
