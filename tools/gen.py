import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS
from vp.registry import CHECKS

GENERIC = ("TLC enumerates every behaviour of the specification within the stated bounds and simulates longer ones; each is replayed in the real code of /repo's "
           "working tree and every observation compared. Assurance is bounded by the explored behaviours; trusted: TLC, the driver's mapping of specification "
           "steps to calls, and Python itself.")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                         "observe_at": list(p["observe"]), "hook_needed": None}}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["id"] in CHECKS and not p["na"]:
        checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                       "technique": f"TLA+ specification spec/{p['spec']}.tla checked with TLC; " + (p["bounds"] or "its behaviours replayed in the real code"),
                       "level": "model_checking", "level_note": p["note"] or GENERIC})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: every check observes public behaviour. Repairs of genuine defects are separate 'fix:' commits, listed in known_findings.jsonl."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
import subprocess
print(len(PROPS), "properties;", len(checks), "checks;", len(na), "n/a")
for p in PROPS:
    n = p["statement"].count(". ") + 1
    if n > 3:
        print("more than three sentences:", p["id"], n)
