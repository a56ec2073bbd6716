#!/bin/bash
# seed.sh verify ID : in a scratch copy: the patch applies to original lines, builds, passes the stable tests; the demo passes without and fails with it
# seed.sh check ID [PROP] : runs the property's check on a scratch copy with the patch
set -u
here=$(cd "$(dirname "$0")/.." && pwd); cmd=$1; id=$2; d=$here/seeded/$id
. /opt/vp/env.sh 2>/dev/null
w=$(mktemp -d /tmp/seedwt.XXXXXX); f=$(mktemp -d /tmp/seedfiles.XXXXXX); trap 'rm -rf "$w" "$f"' EXIT
cp -a /repo/. $w/
if [ $cmd = verify ]; then
  cp -r $d/. $f/; rm -f $f/*.diff $f/meta.json
  (cd $w && bash $f/demo.sh >$f/out 2>&1) || { echo "$id: demo FAILS on clean tree"; tail -20 $f/out; exit 1; }
  (cd $w && git apply $d/patch.diff) || { echo "$id: patch does not apply"; exit 1; }
  (cd $w && go build ./... && go vet ./... >/dev/null 2>&1) || { echo "$id: does not build"; exit 1; }
  (cd $w && bash $f/demo.sh >$f/out 2>&1) && { echo "$id: demo PASSES with the patch"; exit 1; }
  grep -m2 -- "_test.go:\|panic\|Error" $f/out
  (cd $w && go test -json -count=1 -p 4 ./... > $f/test.json 2>/dev/null)
  python3 - $w $d/patch.diff $f/test.json $id <<'P'
import json,sys,subprocess,re
w,patch,tj,id=sys.argv[1:]
b=json.load(open('/opt/vp/BASELINE.json')); st=b.get('stable') or b.get('passed') or b.get('tests') or b
ok=set()
for l in open(tj):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Test'])
miss=[t for t in st if not any(t==o or t.endswith(o) for o in ok)]
base=subprocess.run(['git','-C',w,'rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.strip()
own=0; tot=0; f=None
for l in open(patch):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m[1]); continue
    if l.startswith('---') or l.startswith('+'): continue
    if l.startswith('-'):
        tot+=1
        c=subprocess.run(['git','-C',w,'blame','-l','-s','-L',f'{n},{n}','HEAD','--',f],capture_output=True,text=True).stdout.split()[0].lstrip('^')
        if not base.startswith(c[:20]): own+=1
    if l[:1] in ' -': n+=1
print(f'{id}: verified; stable tests {len(st)}, failing {miss}; removed lines {tot}, of which not original {own}')
P
else
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd $w && git apply $d/patch.diff) || exit 1
  s=$SECONDS; out=$(cd $here && ./check.sh ${3:-$p} quick -repo $w -noevidence 2>&1); rc=$?
  echo "$id (${3:-$p}): exit $rc, $((SECONDS-s)) s: $(echo "$out" | grep -m1 -A1 VIOLATION | tr '\n' ' ')"
  [ $rc = 1 ] || { echo "$out" | tail -5; false; }
fi
