"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vp.registry import PROPS  # noqa: E402

props = [json.loads(x) for x in open(f"{HERE}/properties.jsonl")]
NOT_APPLICABLE = {}
TRUST = (
    "Decides the property for every value of the inputs within the stated bounds: the real functions are executed "
    "symbolically from /repo's current source and every assertion is discharged by z3. Trusted: the symbolic models of "
    "Python's built-in types and library calls (a random sample of the explored paths is re-run on the unmodified code and "
    "must give the same values), z3. Nothing is claimed outside the bounds. Bounds (quick): "
)
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in PROPS:
        checks.append({
            "property": pid,
            "quick_cmd": f"python3-vt check.py {pid} --tier quick",
            "thorough_cmd": f"python3-vt check.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "symbolic execution of the real Python source with z3 deciding every branch and assertion",
            "level": "model_checking",
            "level_note": TRUST + PROPS[pid].bounds["quick"] + ".",
        })
    else:
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no check has been built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3'",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the encoding is made from the source as it is. See DESIGN.md.",
}
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
