#!/usr/bin/env python3
"""Rewrites properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
from props import PROPS
from checks import CHECKS, BOUNDS
try: from props import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = {}
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c \"import os; os.makedirs('evidence', exist_ok=True)\"",
     "hooks": {"guard": "E_FLOAT_VERIF_DIGITS10", "enable": "the checks compile /repo's sources with -DE_FLOAT_VERIF_DIGITS10=<digits> (see run.py)", "source_commits": ["2febf34"]},
     "checks": [], "not_applicable": [],
     "notes": "Every check: python3 run.py <id>. It rebuilds the library from /repo's working tree for each configuration listed in checks.py, explores the bounded space with harness/<name>.cpp, replays each violation alone before reporting it, and writes evidence/<id>.json. Genuine defects: known_findings.txt."}
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": p["_tech"], "level": "model_checking", "level_note": p["_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
exec(open(V + "/tools/mkdesign.py").read())
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
