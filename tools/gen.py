#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/spec.py (use --check to compare only)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from spec import CHECKS
props = "".join(json.dumps(CHECKS[k]["property"], ensure_ascii=False) + "\n" for k in sorted(CHECKS))
checks = []
for k in sorted(CHECKS):
    c = CHECKS[k]
    checks.append({"property": k, "quick_cmd": "python3 tools/run_check.py %s --tier quick" % k,
                   "thorough_cmd": "python3 tools/run_check.py %s --tier thorough" % k,
                   "evidence_file": "evidence/%s.json" % k, "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
       "notes": "Every check compiles the library sources of /repo's working tree with sanitizers in a private temporary directory, runs its search and removes the directory. Replay files land in replays/ (tools/replay.sh FILE reruns one). tools/spec.py and tools/props.py are the source of this file and of properties.jsonl (tools/gen.py writes both)."}
for name, text in (("properties.jsonl", props), ("MANIFEST.json", json.dumps(man, indent=1, ensure_ascii=False) + "\n")):
    open(os.path.join(V, name), "w").write(text)
print(len(checks), "checks")
