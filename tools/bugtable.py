"""Rewrite the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    caught = m.get("caught_by", m["property"])
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {caught} |")
p = V / "DESIGN.md"
s = p.read_text()
t = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
s = s.replace("@@BUGS@@", t) if "@@BUGS@@" in s else re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: t, s, flags=re.S)
p.write_text(s)
