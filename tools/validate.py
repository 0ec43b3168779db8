#!/opt/veriftools/pyvenv/bin/python3
"""Validates properties.jsonl, MANIFEST.json and evidence files against the schemas."""
import json, glob, sys, os
import jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/root/.vp/"
ps = json.load(open(S+"PROPERTIES.schema.json"))
ids = []
for l in open(V+"/properties.jsonl"):
    d = json.loads(l); jsonschema.validate(d, ps); ids.append(d["id"])
assert len(set(ids)) == len(ids)
if os.path.exists(V+"/MANIFEST.json"):
    m = json.load(open(V+"/MANIFEST.json")); jsonschema.validate(m, json.load(open(S+"MANIFEST.schema.json")))
    claimed = [c["property"] for c in m["checks"]]; na = [c["property"] for c in m.get("not_applicable", [])]
    assert sorted(claimed+na) == sorted(ids), set(ids) ^ set(claimed+na)
es = json.load(open(S+"EVIDENCE.schema.json"))
for f in glob.glob(V+"/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), es)
print("valid:", len(ids), "properties")
