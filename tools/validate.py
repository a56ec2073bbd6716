import json,jsonschema,glob,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=set()
for l in open(R+'/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.add(d['id'])
m=json.load(open(R+'/MANIFEST.json'))
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c={x['property'] for x in m['checks']}; n={x['property'] for x in m.get('not_applicable',[])}
print('unlisted',sorted(ids-c-n),'both',sorted(c&n),'unknown',sorted((c|n)-ids))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(R+'/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
