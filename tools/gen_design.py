"""Appends the table of planted bugs to DESIGN.md's text (kept in tools/design.md)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.md").read()
caught = json.load(open(V + "/tools/caught.json"))
t += "\n## Planted bugs and the checks that catch them\n\n"
t += "Each was confirmed to build, pass the 66 tests and fail its demonstration; \"caught by\" lists quick checks with seed 1\n"
t += "(its own property's check first; others only where they were tried).\n\n| bug | needs | caught by |\n|---|---|---|\n"
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    t += f"| {b} | {m['needs']} | {', '.join(caught.get(b, ['not yet tried']))} |\n"
open(V + "/DESIGN.md", "w").write(t)
