#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os

from props import PROPS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"] or ["public functions of the files above"],
                         hook_needed=None))) + "\n")
        if os.path.isfile(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            checks.append(dict(
                property=p["id"],
                quick_cmd=f"{PY} run.py {p['id']}",
                thorough_cmd=f"{PY} run.py {p['id']} --tier thorough",
                evidence_file=f"evidence/{p['id']}.json",
                technique=p["technique"],
                level="exploration",
                level_note="Held on every generated case (counts in the evidence file); trusts the "
                           "reference model in /verif, numpy/scipy and the stated tolerances."))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="One runner (run.py) drives the per-property modules in checks/ with Hypothesis; "
               "no hooks in /repo are needed.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
