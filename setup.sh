#!/bin/bash
# Every check builds what it needs itself; setup only verifies that the toolchain works.
cd "$(dirname "$0")/mc" && tmp=$(mktemp -d /tmp/vmc-setup-XXXXXX) && GOCACHE="$tmp/c" GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=0 go build -buildvcs=false -o "$tmp/vmc" .
rc=$?
rm -rf "$tmp"
exit $rc
