#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a check; NA the reasons for the others."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(here+'/properties.jsonl')]
CLAIMED=open(here+'/tools/claimed.txt').read().split()
NOTE={
 'default':'Within the bounds named per harness in the evidence file, z3 has decided every assertion on every path of the real functions (go/ssa of the current tree). Outside the bounds nothing is claimed. Trusted: the symbolic executor (cross-checked by native replay of sampled paths and cvc5 on sampled queries), z3, the shims for time, random numbers, files, processes and system calls.',
}
NA={
}
checks=[]; na=[]
for i in ids:
    if i in CLAIMED:
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',
            evidence_file=f'evidence/{i}.json',
            technique='symbolic execution of the real code (go/ssa) with SMT (z3) deciding every path within bounds',
            level='model_checking',level_note=NOTE.get(i,NOTE['default'])))
    else:
        na.append(dict(property=i,reason=NA.get(i,'No check yet: harness under construction.')))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
       notes='No hooks in /repo: harnesses and shims enter through a build overlay. Repairs of defects are the fix: commits listed in known_findings.txt.')
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
