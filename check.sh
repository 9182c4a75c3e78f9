#!/bin/bash
# Decides one property: bash check.sh <property>
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export TZ=UTC GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build} PATH=$PATH:/usr/local/go/bin
bash "$here/setup.sh" || exit 3
exec timeout 880 "$here/build/engine" check "$1"
