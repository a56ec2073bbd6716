#!/bin/bash
# mut.sh FILE OLD NEW PROP...: does the check of PROP detect the replacement of OLD (once) by NEW in FILE? (in a scratch copy)
here=$(cd "$(dirname "$0")/.." && pwd); f=$1; o=$2; n=$3; shift 3
w=$(mktemp -d /tmp/mu.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo/. "$w"/
python3 - "$w/$f" "$o" "$n" <<'P' || exit 2
import sys
f,o,n=sys.argv[1:]
t=open(f).read()
if t.count(o)<1: sys.exit('not found: '+o)
open(f,'w').write(t.replace(o,n,1))
P
. /opt/vp/env.sh 2>/dev/null
(cd "$w" && go build ./... ) || exit 2
for p in "$@"; do
  out=$("$here/check.sh" $p quick -repo "$w" -noevidence 2>&1); rc=$?
  echo "$p: exit $rc $(echo "$out" | grep -m1 -A1 VIOLATION | tr '\n' ' ')"
  [ $rc = 1 ] || echo "$out" | tail -4
done
