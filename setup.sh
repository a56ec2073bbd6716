#!/bin/bash
# Warms the Go build cache (engine and replay builds); the checks work without it, only slower.
here=$(cd "$(dirname "$0")" && pwd)
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $d/go ] && PATH=$d:$PATH && break; done
export PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
bin=$(mktemp -d /tmp/metisengine.XXXXXX)
trap 'rm -rf "$bin"' EXIT
(cd "$here/engine" && go build -o "$bin/engine" .)
