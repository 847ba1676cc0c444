#!/usr/bin/env python3
"""regenerate MANIFEST.json from properties.jsonl, the check modules and tools/na.json"""
import importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
sys.path.insert(0, ROOT)
na = json.load(open(os.path.join(ROOT, "tools", "na.json")))
checks, nas = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")) and pid not in na:
        m = importlib.import_module(pid.lower())
        checks.append(
            {
                "property": pid,
                "quick_cmd": "python3 checks/run.py " + pid,
                "thorough_cmd": "python3 checks/run.py " + pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": getattr(m, "TECHNIQUE", "dataflow analysis (gated value numbering) over compiler MIR"),
                "level": "other",
                "level_note": m.EXPLAIN,
            }
        )
    else:
        nas.append({"property": pid, "reason": na.get(pid, "no static rule built yet for this property")})
out = {
    "version": 1,
    "setup_cmd": "python3 -m engine.facts",
    "checks": checks,
    "not_applicable": nas,
    "notes": "Static analysis only: a rustc driver extracts MIR facts of /repo, a Python value-flow analysis decides the obligations.",
}
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(nas), "not applicable")
