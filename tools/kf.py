"""python tools/kf.py <property> <commit> <what failed>: record a repaired defect."""
import json
import os
import sys
p, c, w = sys.argv[1:]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl"), "a") as f:
    f.write(json.dumps({"status": "fixed", "property": p, "commit": c, "what": f"fixed: property={p} {c} {w}"}) + "\n")
