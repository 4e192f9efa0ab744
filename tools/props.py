"""Source of properties.jsonl and MANIFEST.json (run: /opt/venv/bin/python tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: VCs generated from the real function bodies, discharged by z3/cvc5"
P = []


def prop(id, title, statement, files, mechanism, quant, why, over=("inputs",), note="", technique=TECH, level="proof"):
    assert len(title) <= 80, title
    P.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])),
        c=dict(property=id, quick_cmd=f"./check {id} quick", thorough_cmd=f"./check {id} thorough", technique=technique, level=level,
               level_note=note or "Every obligation generated from the current source is discharged for all inputs and array sizes; floats are treated as reals, integers as mathematical integers; engine semantics are trusted but cross-checked against CPython in every run.")))


NA = []

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["p"]) + "\n")
    for x in NA:
        f.write(json.dumps(x["p"]) + "\n")
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); import pyvc, z3; print(z3.get_version_string())\"",
         checks=[x["c"] for x in P], not_applicable=[dict(property=x["p"]["id"], reason=x["reason"]) for x in NA],
         notes="No hooks: contracts are sidecar files in /verif/contracts; /repo is read, never annotated.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "claimed", len(NA), "not applicable")
