#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the models and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import models, vlib
props = [json.loads(x)["id"] for x in open(os.path.join(vlib.VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    m = next((m for m in models.MODELS if p in m.props), None)
    if m is None:
        na.append({"property": p, "reason": models.NOT_APPLICABLE.get(p, "not yet built")})
        continue
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                   "thorough_cmd": f"python3 check.py {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                   "technique": m.technique, "level": "model_checking", "level_note": m.note})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "none", "enable": "no hooks are needed: the drivers compile /repo's sources unchanged",
                     "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Specification language: TLA+ (TLC). See DESIGN.md."},
          open(os.path.join(vlib.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
