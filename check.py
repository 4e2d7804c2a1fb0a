"""check.py <property id> [--tier quick|thorough] [--budget seconds]: decide one property."""
import argparse
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vp import driver  # noqa: E402
from vp.registry import PROPS  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    p.add_argument("--budget", type=float)
    p.add_argument("-v", action="store_true")
    a = p.parse_args()
    prop = PROPS[a.property]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = a.budget or {"quick": 150, "thorough": 800}[a.tier]
    confirmed, replay, out, ev = driver.check(prop, a.tier, seed, budget)
    c = ev["coverage"]
    print(
        f"{prop.pid} {a.tier}: {c['states']} paths, {c['transitions']} decisions, {c['solver_queries']} solver queries "
        f"({c['solver_s']} s), {c['traces_validated_against_impl']} validated, {c['paths_inconclusive']} inconclusive, "
        f"exhaustive={c['exhaustive']}, {ev['wall_s']} s"
    )
    for line in out["findings"]:
        print(line)
    if a.v:
        for k, v in list(out["incon"].items())[:10]:
            print("  ", v[0], k[:400], v[1][:600])
        if c["unreached_witnesses"]:
            print("   unreached:", c["unreached_witnesses"])
        if c["cases_cut_by_time"]:
            print("   cut:", c["cases_cut_by_time"])
        for k, v in sorted(out["seconds"].items(), key=lambda x: -x[1])[:8]:
            print(f"   {v:7.1f} s  {prop.cases[a.tier][k].name}")
        if c["concretised_calls"]:
            print("   concretised:", c["concretised_calls"])
    for e in out["errors"]:
        print("error:", e)
    if confirmed:
        v = out["violation"]
        print("counterexample:", v[0], v[1], driver.render(v[2]))
        print("violated:", v[3])
        print(f"VIOLATION property={prop.pid} replay={replay}")
        return 1
    if out["errors"]:
        return 2
    if not c["exhaustive"]:
        print(f"NOT EXHAUSTIVE: {c['paths_inconclusive']} paths outside the encoding ({c['runs_on_inconclusive_paths']} values of them run), {len(c['cases_cut_by_time'])} cases cut by time")
    if c["states"] == 0 and c["runs_on_inconclusive_paths"] == 0:
        return 2  # nothing was explored at all
    return 0


if __name__ == "__main__":
    sys.exit(main())
