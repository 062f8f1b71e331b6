#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA_DEFAULT = "check not built yet"
T = {}
exec(open(V + "/tools/claims.py").read())
m = {"version": 1, "setup_cmd": "bash check.sh build", "hooks": {"guard": "none", "enable": "No hooks: observation is at the public API, the Read+Seek boundary and through compiler instrumentation (RUSTC_WRAPPER=mon/rustc-wrap.sh).", "source_commits": []}, "checks": [], "not_applicable": []}
for i in ids:
    if i in T:
        level, tech, note = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, NA_DEFAULT)})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
