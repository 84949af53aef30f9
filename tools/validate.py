import json,sys
from jsonschema import Draft202012Validator as D
ok=True
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for i,l in enumerate(open('/verif/properties.jsonl')):
    for e in D(s).iter_errors(json.loads(l)): ok=False; print('line',i+1,e.message[:200])
m=json.load(open('/verif/MANIFEST.json'))
for e in D(json.load(open('/root/.vp/MANIFEST.schema.json'))).iter_errors(m): ok=False; print('manifest',e.message[:200])
import glob
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    for e in D(es).iter_errors(json.load(open(f))): ok=False; print(f,e.message[:200])
print('valid' if ok else 'INVALID')
