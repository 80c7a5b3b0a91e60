#!/usr/bin/env python3-vt
import json,jsonschema,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
import glob
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print('valid')
