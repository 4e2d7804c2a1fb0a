"""replay.py FILE: run a recorded counterexample against the code in /repo as it is.  Exit 1 if it violates
the property, 0 if not."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(1000)

from vp import driver  # noqa: E402

with open(sys.argv[1]) as f:
    d = json.load(f)
_, real = driver.make_worlds()
verdict, label, ctx = driver.run_concrete(real, d["module"], d["fn"], d["params"], d["inputs"])
print("property:", d["property"])
print("inputs:", driver.render(d["inputs"]))
for n, v in ctx.observed:
    print(f"observed {n}: {v!r}")
print("verdict:", verdict, label or "")
sys.exit(1 if verdict == "violated" else 0)
