#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
k = json.load(open(p))
n = max(int(x["id"][1:]) for x in k if x["id"][0] == "F") + 1
k.append(dict(id="F%02d" % n, property=sys.argv[1], status="fixed", entry="fixed: property=%s %s %s" % tuple(sys.argv[1:4])))
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(x) for x in k) + "\n]\n")
