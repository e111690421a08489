"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "DESIGN.md")).read()
t = t[: t.index("| bug | property |")]
t += "| bug | property | needs | caught by |\n|---|---|---|---|\n"
missed = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    t += f"| {d} | {m['property']} | {m['needs']} | {missed.get(d, m['property'])} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(t)
