#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
from registry import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        a = {"files": p["files"]}
        a["mechanism"] = [{"name": x, "where": p["files"][0]} for x in (p["symbols"] or [os.path.basename(p["files"][0])])]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    if p["claimed"] and p["id"] in PROPS:
        checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s" % p["id"],
                       "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
                       "technique": p["technique"] or "TLA+ specification checked with TLC; recorded executions of the real code validated against it",
                       "level": PROPS[p["id"]].get("level", "model_checking"),
                       "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["reason"] or "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py",
           "hooks": {"guard": "PSI_VERIF_HOOKS", "enable": "bin/vlib.py compiles /repo's sources with -DPSI_VERIF_HOOKS",
                     "source_commits": ["d6e702a"]}, "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
