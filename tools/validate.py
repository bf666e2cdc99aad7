import json, jsonschema
ps=json.load(open('/root/.vp/PROPERTIES.schema.json')); ms=json.load(open('/root/.vp/MANIFEST.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l), ps)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), ms)
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
import glob
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)), es)
print("ok")
