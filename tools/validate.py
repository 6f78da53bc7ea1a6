import json,jsonschema,sys,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json')); ids=set()
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); ids.add(p['id'])
    try: jsonschema.validate(p, s)
    except Exception as e: print(p['id'], str(e)[:300])
try:
    m=json.load(open('/verif/MANIFEST.json'))
    jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c={x['property'] for x in m['checks']}|{x['property'] for x in m.get('not_applicable',[])}
    print('unmentioned', ids-c, 'unknown', c-ids)
except FileNotFoundError: pass
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/C*.json'):
    try: jsonschema.validate(json.load(open(f)), es)
    except Exception as e: print(f, str(e)[:300])
