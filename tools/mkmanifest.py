#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules present and the texts below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "manifest_text.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "rules", i.lower() + ".py")) and i in TECH:
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i,
                           technique=t, level="other", level_note=" ".join(note.split())))
    else:
        na.append(dict(property=i, reason=" ".join(NA[i].split())))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
