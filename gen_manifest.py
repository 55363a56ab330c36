#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=c["technique"], level="exploration",
                       level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 -c 'import vbuild; print(len(vbuild.repo_sources()[0]), \"sources\")' && g++ --version | head -1",
         hooks=dict(guard="none", enable="no hooks: the harnesses observe /repo through its public API, its C-function ABI and sanitizers", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check compiles /repo's current sources with sanitizers (build cache in /verif/build, keyed by content) and runs a monitored workload. See DESIGN.md.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
