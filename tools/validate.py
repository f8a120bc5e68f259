#!/usr/bin/env python3-vt
import glob, json, jsonschema
V = "/root/.vp/"
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open(V + 'MANIFEST.schema.json')))
s = json.load(open(V + 'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    o = json.loads(l)
    jsonschema.validate(o, s)
    if len(o["title"]) > 80: print("long title", o["id"])
for f in glob.glob('/verif/evidence/P*.json'):
    jsonschema.validate(json.load(open(f)), json.load(open(V + 'EVIDENCE.schema.json')))
print("valid")
