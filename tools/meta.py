#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in this file."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed
N = []   # not applicable


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, title
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    P.append((p, technique, note, na))


exec(open(os.path.join(H, "tools", "props.py")).read())
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, t, n, r in P:
    if r:
        na.append(dict(property=p["id"], reason=r))
    else:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                           thorough_cmd="python3 check.py %s thorough" % p["id"], technique=t, level="other", level_note=n))
json.dump(dict(version=1, setup_cmd="python3 engine/setup.py", checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
