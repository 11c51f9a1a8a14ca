#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties_src.py')).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
