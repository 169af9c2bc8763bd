"""Writes properties.jsonl and MANIFEST.json from props.py (only properties whose check exists are claimed)."""
import json
import os

from props import P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
checks, na = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        e = p["entry"]
        f.write(json.dumps(e) + "\n")
        if os.path.exists(os.path.join(ROOT, "checks", e["id"] + ".py")):
            checks.append(dict(
                property=e["id"], quick_cmd="%s run.py %s" % (PY, e["id"]), thorough_cmd="%s run.py %s" % (PY, e["id"]),
                evidence_file="evidence/%s.json" % e["id"], technique=p.get("technique", "property-based testing (Hypothesis), generated cases against an independent oracle"),
                level="exploration", level_note=p["note"] + " Search over generated cases: it never establishes absence; trusts numpy/scipy/astropy and the model in vlib/ref.py."))
        else:
            na.append(dict(property=e["id"], reason="no check yet"))
man = dict(version=1, setup_cmd="%s run.py --setup" % PY, checks=checks, not_applicable=na,
           notes="No hooks: the checks only use the public interface of the package. run.py PROP --replay FILE re-runs one saved case.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
