#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG FILE: stdin is JSON {old,new,needs,breaks,test}; writes /verif/seeded/ID.
old/new may be lists of [file, old, new]."""
import sys,os,json,subprocess,tempfile,shutil
def make(id,prop,pkg,edits,needs,breaks,test,script=None):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='/tmp/mkseed.')
    try:
        subprocess.run(['cp','-a','/repo/.',w],check=True)
        for f,old,new in edits:
            p=w+'/'+f; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        subprocess.run(['gofmt','-l','-e']+[w+'/'+e[0] for e in edits])
        diff=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
    finally:
        shutil.rmtree(w)
    open(d+'/patch.diff','w').write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo_test.go.txt','w').write(test)
    open(d+'/demo.sh','w').write(script or f'''#!/bin/bash
# Runs demo_test.go.txt inside package ./{pkg} of the current directory's tree.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $d/go ] && PATH=$d:$PATH && break; done
export PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cp "$here/demo_test.go.txt" "$t/demo_test.go"
echo "{{\\"Replace\\": {{\\"$PWD/{pkg}/zz_demo_test.go\\": \\"$t/demo_test.go\\"}}}}" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -count=1 -vet=off -timeout 120s -run 'TestSeededDemo$' "./{pkg}"
''')
