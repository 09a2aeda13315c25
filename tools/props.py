#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed once checks.json has it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REG = json.load(open(V + "/checks.json"))
C = "source/core/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, **kw):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                   why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **kw)),
              technique, note))


exec(open(V + "/tools/props_data.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                      thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                      technique=t, level="exploration", level_note=n) for p, t, n in P if p["id"] in REG],
         not_applicable=[dict(property=p["id"], reason="not claimed: property-based testing applies, but a full reference for the perplexity calibration and the divergence was not built; C05-C07 and C23 cover the statuses and repeatability of this model and C24 the agreement of its vector kernels over a few iterations") for p, t, n in P if p["id"] not in REG])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
