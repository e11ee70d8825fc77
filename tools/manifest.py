#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from claims import CLAIMS, NOTES
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
           "technique": CLAIMS[p][0], "level": CLAIMS[p][1], "level_note": CLAIMS[p][2]} for p in props if p in CLAIMS]
na = [{"property": p, "reason": "check not built yet"} for p in props if p not in CLAIMS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na, "notes": NOTES},
          open(V + "/MANIFEST.json", "w"), indent=1)
