#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
(and seeded/*/caught, which tools/try_all_seeds.sh writes)."""
import json, pathlib, re
ROOT = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    c = d / "caught"
    rows.append(f"| `{d.name}` | {m['property']} | {m['needs']} | {c.read_text().strip() if c.exists() else m['property']} |")
table = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
f = ROOT / "DESIGN.md"
t = f.read_text()
t = t.replace("@@SEEDS@@", table) if "@@SEEDS@@" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: table, t, flags=re.S)
f.write_text(t)
print(len(rows) - 2)
