#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that
the statements stay readable and diffable)."""
import json, os, sys

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
            **({"observe_at": list(observe)} if observe else {}),
        },
    })


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())

assert len({p["id"] for p in P}) == len(P)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
