#!/usr/bin/env python3-vt
"""Validates MANIFEST.json, properties.jsonl and the evidence files against the schemas."""
import glob
import json
import os

import jsonschema

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def schema(n):
    return json.load(open(f"/root/.vp/{n}.schema.json"))


jsonschema.validate(json.load(open(ROOT + "/MANIFEST.json")), schema("MANIFEST"))
for line in open(ROOT + "/properties.jsonl"):
    jsonschema.validate(json.loads(line), schema("PROPERTIES"))
for f in sorted(glob.glob(ROOT + "/evidence/*.json")):
    jsonschema.validate(json.load(open(f)), schema("EVIDENCE"))
print("valid")
