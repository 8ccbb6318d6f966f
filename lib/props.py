#!/usr/bin/env python3
"""The listed properties.  Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    for f in files: assert os.path.exists('/repo/' + f), f
    if observe: d["anchors"]["observe_at"] = observe
    P.append((d, tech, note, na))

exec(open(os.path.join(V, "lib", "props_data.py")).read())

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for d, *_ in sorted(P, key=lambda x: x[0]["id"]):
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, tech, note, why in sorted(P, key=lambda x: x[0]["id"]):
        if tech:
            checks.append(dict(property=d["id"], quick_cmd="./check " + d["id"],
                               thorough_cmd="VERIF_TIER=thorough ./check " + d["id"], technique=tech,
                               level="exploration", level_note=note))
        else:
            na.append(dict(property=d["id"], reason=why))
    m = dict(version=1, setup_cmd="python3 lib/build.py " + " ".join(c["property"] for c in checks),
             checks=checks, not_applicable=na,
             notes="known findings: known_findings.txt; engine: lib/pbt.cpp; simulated Mercury/MPI: sim/")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
if __name__ == "__main__":
    main()
