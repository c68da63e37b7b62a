#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place where their text lives)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(V + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
checks = json.load(open(V + "/checks.json"))
M = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[], notes="See DESIGN.md. Every check rebuilds the library from /repo's working tree (content-addressed, in /verif/build).")
for p in P:
    i = p["id"]
    if i in checks:
        lvl, tech, note = META[i]
        M["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=tech, level=lvl, level_note=note))
    else:
        M["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sp)
    print("schemas ok", len(P), "properties", len(M["checks"]), "checks")
except ImportError: print("jsonschema missing; written unchecked")
