"""Rewrite the generated sections of DESIGN.md (bounds and cost; planted bugs)."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vp.registry import PROPS  # noqa: E402


def cell(s):
    return s.replace("|", "\\|")


def table():
    yield "| id | quick bounds | cost (8 cores) | thorough bounds |"
    yield "|---|---|---|---|"
    costs = json.load(open(ROOT + "/tools/costs.json"))
    for p in sorted(PROPS):
        b = PROPS[p].bounds
        yield f"| {p} | {cell(b['quick'])} | {costs.get(p, '')} | {cell(b['thorough'])} |"


def seeded():
    yield "| change | property whose check catches it (quick) | what it breaks | needs |"
    yield "|---|---|---|---|"
    for d in sorted(os.listdir(ROOT + "/seeded")):
        m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
        yield f"| {d} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} |"


t = open(ROOT + "/DESIGN.md").read()
for name, rows in (("table", table()), ("seeded", seeded())):
    t = re.sub(f"(<!-- begin {name} -->\n).*?(<!-- end {name} -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], t, flags=re.S)
open(ROOT + "/DESIGN.md", "w").write(t)
