#!/bin/bash
# selftest.sh: runs the engine on programs that use much of the language and the library; every
# path is replayed natively, what the two observe has to agree, nothing may be incomplete.
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/selftest.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a "$here/engine" "$here/rt" "$here/check.sh" "$w"/; mkdir "$w/harness" "$w/evidence"; cp -a "$here/engine/testdata/." "$w/harness/"
(cd "$here/engine" && . /opt/vp/env.sh 2>/dev/null; GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go test ./... ) || exit 1
for f in "$w"/harness/*/x*.go; do
  p=$(basename $f .go | tr a-z A-Z)
  out=$("$w/check.sh" $p quick -noevidence -samples 200 2>&1) || { echo "$out"; exit 1; }
  echo "$out" | grep -q "incomplete\|MISMATCH" && { echo "$out"; exit 1; }
  echo "$out" | tail -1
done
"$here/tools/viper.sh" >/dev/null || { echo "viper.sh fails"; exit 1; }
