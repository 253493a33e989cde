#!/usr/bin/env python3
"""Refresh the catch table at the end of DESIGN.md from seeded/*/meta.json and tools/seed/catches.txt."""
import json
from pathlib import Path
R = Path(__file__).resolve().parent.parent
got = {}
for l in (R / "tools/seed/catches.txt").read_text().split("\n"):
    f = l.split()
    if len(f) >= 2:
        got.setdefault(f[0], []).append(f[1])
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {', '.join(sorted(set(got.get(d.name, [])))) or '**not caught**'} |")
t = (R / "DESIGN.md").read_text()
k = t.find("CATCHTABLE") if "CATCHTABLE" in t else t.find("| planted bug |")
(R / "DESIGN.md").write_text(t[:k] + "\n".join(rows) + "\n")
