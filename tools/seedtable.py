#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
AFTER = json.loads((V / "tools" / "after.json").read_text())
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    a = f" (after: {AFTER[d.name]})" if d.name in AFTER else ""
    rows.append(f"| `{d.name}` | {m['property']}{a} | {m['needs'].replace('|', '/')} |")
s = (V / "DESIGN.md").read_text()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEED-TABLE" in s:
    s = s.replace("SEED-TABLE", new)
else:
    s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: new, s, flags=re.S)
(V / "DESIGN.md").write_text(s)
