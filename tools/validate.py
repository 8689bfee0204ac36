import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
    n=d['statement'].count('. ')+1
    if n>3: print(d['id'],n,'sentences')
assert len(ids)==len(set(ids))
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]; na=[x['property'] for x in m['not_applicable']]
    assert sorted(c+na)==sorted(ids),(set(ids)^set(c+na))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir('/verif/evidence')):
    if f.endswith('.json'): jsonschema.validate(json.load(open('/verif/evidence/'+f)),es)
print('ok',len(ids))
