#!/bin/bash
# builds the program from the current directory and runs demo.py on it
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=$T
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOCACHE=${DEMO_GOCACHE:-$T/gc}
go build -buildvcs=false -o "$T/vbsp" . || exit 3
export VBSP=$T/vbsp TMPDIR=$T PYTHONDONTWRITEBYTECODE=1
python3 "$here/demo.py"
