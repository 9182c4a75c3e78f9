#!/bin/bash
# Builds the verifier into /verif/build (not committed).
set -e
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} TZ=UTC GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod
mkdir -p "$here/build" "$here/evidence"
cd "$here/engine"
go build -o "$here/build/engine" .
