"""Regenerates MANIFEST.json from properties.jsonl and harness/config.py."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from config import PROPS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           technique=p.get("technique", "runtime monitoring: seeded workloads on the real code, judged online/offline by independent oracles"),
                           level="exploration", level_note=p.get("note", "held on the executions observed; no claim beyond them")))
na = [dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
