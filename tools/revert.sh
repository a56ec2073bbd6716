#!/bin/bash
# revert.sh COMMIT PROP...: does the check of PROP detect the defect that fix COMMIT repaired? (in a scratch copy)
here=$(cd "$(dirname "$0")/.." && pwd); c=$1; shift
w=$(mktemp -d /tmp/rv.XXXXXX); trap 'rm -rf "$w"' EXIT
git -C /repo worktree list >/dev/null; cp -a /repo/. "$w"/
git -C "$w" revert -n $c >/dev/null 2>&1 || { echo "$c: does not revert cleanly"; git -C "$w" status --short | head; exit 2; }
for p in "$@"; do
  out=$("$here/check.sh" $p quick -repo "$w" -noevidence 2>&1); rc=$?
  echo "$c $p: exit $rc $(echo "$out" | grep -m1 -A1 VIOLATION | tr '\n' ' ')"
  [ $rc = 1 ] || echo "$out" | tail -4
done
