#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of checks."""
import importlib
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^verif:"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(V, "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "check is not built yet"})
        continue
    m = importlib.import_module("props." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": getattr(m, "TECHNIQUE", "runtime monitoring: offline oracle over outputs of real runs vs independent reference model"),
        "level": m.LEVEL,
        "level_note": getattr(m, "NOTE", "") or ("Held on the executions generated and listed in evidence, not for all inputs. " + "; ".join(m.ASSUMPTIONS)),
    })
d = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "verif", "enable": "go build -tags verif", "source_commits": hook},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check builds the CLI from /repo, runs it on generated workloads and judges the observed outputs; see DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
