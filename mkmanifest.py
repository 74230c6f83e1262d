#!/usr/bin/env python3
"""Regenerate MANIFEST.json from dst.props (the list of claimed properties)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dst import props  # noqa: E402

ALL = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for pid in ALL:
    p = props.PROPS.get(pid)
    if p is None:
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % pid,
        "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": p.technique,
        "level": p.level,
        "level_note": p.level_note,
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); import dst.props\"",
     "checks": checks,
     "hooks": {"guard": "none: no hook in /repo is needed (all seams are arguments, module attributes and log records)",
               "enable": "nothing to enable; the simulator imports dfols from /repo and rebinds module attributes at run time",
               "source_commits": []},
     "not_applicable": [{"property": q, "reason": "not built yet"} for q in ALL if q not in props.PROPS],
     "notes": "All checks are runs of the deterministic simulator in dst/. Replay a violation with replay.py FILE."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
