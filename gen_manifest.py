#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, subprocess
D = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(D + "/checks/levels.json"))
props = [json.loads(l) for l in open(D + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (D, i.lower())) and i in T:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=T[i]["technique"], level=T[i].get("level", "model_checking"), level_note=T[i]["note"]))
    else:
        na.append(dict(property=i, reason=T.get("na", {}).get(i, "no check built yet")))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^Add guarded verification hooks"], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="NUJEL_VERIF", enable="make CFLAGS='-g -D_GNU_SOURCE -DNUJEL_VERIF' in a scratch copy of /repo's working tree (vp/common.py: Check.build)", source_commits=hooks),
         checks=checks, not_applicable=na,
         notes="All checks: TLA+ specifications under spec/, explored with TLC; the behaviours TLC prints are replayed into the interpreter built from /repo's working tree (and, where noted, recorded traces are validated against the specification).")
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
