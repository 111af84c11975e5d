#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = open(V + "/bin/check.py").read()
T = "TLA+ specification; exhaustive TLC exploration, replay of its behaviours on the real code, TLC trace validation"
N = json.load(open(V + "/bin/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if re.search(r"^def %s\(" % i, src, re.M):
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": N.get(i, {}).get("technique", T), "level": "model_checking",
                       "level_note": N.get(i, {}).get("note", "-")})
    else:
        na.append({"property": i, "reason": N.get(i, {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "hooks": {"guard": "go build -overlay (nothing in /repo)", "enable": "bin/lib.py builds /repo's working tree with an overlay that adds the driver as internal/verifx and instruments commits of the badger and rbf modules", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "No hook is committed in /repo. All commits in /repo are fix: commits, recorded in known-findings.json."},
          open(V + "/MANIFEST.json", "w"), indent=1)
