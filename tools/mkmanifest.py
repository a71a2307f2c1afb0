#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/plans.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from plans import PLANS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("TLC explores the design models exhaustively within their constants and validates recorded executions of the code against the "
        "specification; executions cover every scenario class of the models with seeded concrete values, not all inputs. Trusted: TLC, "
        "Java double arithmetic, the recorder.")
checks = [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
               technique=PLANS[p["id"]].get("technique", "TLA+ design models (TLC) + scenario replay into the code + TLC trace validation against the numeric TLA+ specification"),
               level="model_checking", level_note=PLANS[p["id"]].get("note", NOTE)) for p in props if p["id"] in PLANS]
na = [dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in PLANS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: only public interfaces are observed.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
