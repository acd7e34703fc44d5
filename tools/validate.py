"""Validate the committed files against the schemas (run with /opt/veriftools/pyvenv/bin/python)."""
import json, pathlib, jsonschema
V = pathlib.Path(__file__).resolve().parent.parent
S = {n: json.load(open(f"/root/.vp/{n}.schema.json")) for n in ("PROPERTIES", "MANIFEST", "EVIDENCE")}
for line in open(V / "properties.jsonl"):
    o = json.loads(line); jsonschema.validate(o, S["PROPERTIES"]); assert len(o["title"]) <= 80
jsonschema.validate(json.load(open(V / "MANIFEST.json")), S["MANIFEST"])
for f in sorted((V / "evidence").glob("*.json")):
    jsonschema.validate(json.load(open(f)), S["EVIDENCE"])
print("valid")
