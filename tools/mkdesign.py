#!/usr/bin/env python3
"""Fills tools/DESIGN.tmpl.md in: the table of planted bugs (seeded/*/meta.json, tools/caught.json)."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
c = json.loads((V / "tools/caught.json").read_text())
rows = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {c.get(d.name, '?')} |")
t = (V / "tools/DESIGN.tmpl.md").read_text()
t = t.replace("@@SEEDS@@", "\n".join(rows)).replace("@@MUT@@", (V / "tools/mutation.md").read_text().strip())
(V / "DESIGN.md").write_text(t)
