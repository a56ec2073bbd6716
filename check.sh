#!/bin/bash
# check.sh PROPERTY [quick|thorough] [engine flags]: builds the engine and decides one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $d/go ] && PATH=$d:$PATH && break; done
export PATH GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local GOWORK=off GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
bin=$(mktemp -d /tmp/metisengine.XXXXXX)
trap 'rm -rf "$bin"' EXIT
(cd "$here/engine" && go build -o "$bin/engine" .) || { echo "engine does not build" >&2; exit 2; }
"$bin/engine" -prop "$prop" -tier "$tier" -verif "$here" "$@"
