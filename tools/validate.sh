#!/bin/bash
# Validates the generated files against the task's schemas.
cd "$(dirname "$0")/.." || exit 1
python3-vt - <<'P'
import json, jsonschema, glob
R='/root/.vp/'
d=json.load(open(R+'PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l), d)
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open(R+'MANIFEST.schema.json')))
e=json.load(open(R+'EVIDENCE.schema.json'))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)), e)
print('valid')
P
