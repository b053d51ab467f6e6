#!/usr/bin/env python3
# Source of /verif/properties.jsonl.  P(id, title, statement, over, qtext, why, files, mech[, state, observe])
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    rows.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
        anchors=dict(files=files.split(),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_src.py")).read())
ids = [r["id"] for r in rows]
assert len(ids) == len(set(ids))
with open(OUT, "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
print(len(rows), "properties")
