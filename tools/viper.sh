#!/bin/bash
# viper.sh: compares rt/vviper with the real viper in /repo's module.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh 2>/dev/null
o=$(mktemp /tmp/viper.XXXXXX.json); trap 'rm -f "$o"' EXIT
python3 - "$here" "$o" <<'P'
import sys,json,os
h,o=sys.argv[1:]; r={'/repo/config/zz_viper_test.go':h+'/tools/viper/viper_test.go'}
for d in os.listdir(h+'/rt'):
    for f in os.listdir(h+'/rt/'+d): r[f'/repo/verif/{d}/{f}']=f'{h}/rt/{d}/{f}'
json.dump({'Replace':r},open(o,'w'))
P
cd /repo && go test -overlay "$o" -vet=off -count=1 -run TestViper -v ./config
