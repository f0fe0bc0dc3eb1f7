#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the checker in a scratch directory and runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
tmp="$(mktemp -d /tmp/vmc-XXXXXXXX)" || exit 3
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
export VMC_GOCACHE="${VMC_GOCACHE:-$tmp/gocache}" GOCACHE="${VMC_GOCACHE:-$tmp/gocache}"
export GOCACHE="$VMC_GOCACHE"
(cd "$here/mc" && go build -buildvcs=false -o "$tmp/vmc" .) || exit 3
"$tmp/vmc" -prop "$1" -tier "$tier" -repo "${VERIF_REPO:-/repo}" -verif "$here" ${VMC_ARGS:-}
exit $?
