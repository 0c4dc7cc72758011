#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present."""
import json, os, subprocess
H = os.path.dirname(os.path.abspath(__file__))
TECH = json.load(open(H + "/lib/techniques.json"))
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    t = TECH.get(p)
    if t and os.path.exists("%s/checks/%s.py" % (H, p.lower())):
        checks.append(dict(property=p, quick_cmd="python3 checks/%s.py" % p.lower(),
                           thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % p.lower(), evidence_file="evidence/%s.json" % p,
                           technique=t["technique"], level="model_checking", level_note=t["note"]))
    else:
        na.append(dict(property=p, reason=(t or {}).get("reason", "specification and check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 -m py_compile lib/vf.py lib/mesh.py lib/files.py && chmod +x bin/*.sh",
               checks=checks, not_applicable=na,
               notes="No hooks in /repo: the harness problem generators in /verif/harness use Athena's documented user functions. "
                     "Fix commits in /repo are listed in known_findings.json."), open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
