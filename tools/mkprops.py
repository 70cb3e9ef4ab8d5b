#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable and diffable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_text.py")).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
