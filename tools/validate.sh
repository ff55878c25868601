python3 /verif/tools/mkmeta.py && python3-vt - <<'P'
import json,jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
print('ok')
P
