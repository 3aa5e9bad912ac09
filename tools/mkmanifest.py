#!/usr/bin/env python3-vt
import json, subprocess, sys
sys.path.insert(0, "/verif/bin")
from jobs import PROPS
props = [json.loads(x) for x in open("/verif/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
            technique="TLA+ specification checked with TLC; TLC-enumerated behaviours replayed into the crate and recorded executions validated by TLC trace specifications",
            level="model_checking", level_note=PROPS[i].get("note", "Exhaustive on small lattices (replayed under many exact embeddings of the lattice into doubles) plus seeded random recorded executions validated against the same specification; trusts TLC, the harness's projection and, outside the explored lattices, the small-scope hypothesis.")))
    else:
        na.append(dict(property=i, reason=json.load(open("/verif/tools/na.json")).get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash bin/setup.sh",
    hooks=dict(guard="cfg geos_verif (rustc --cfg)", enable='RUSTFLAGS="--cfg geos_verif" when building /verif/harness, which depends on /repo by path', source_commits=hooks),
    checks=checks, not_applicable=na)
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks", len(na), "n/a")
