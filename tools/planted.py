"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""

import json
import pathlib
import re

VERIF = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | property | needs | what it breaks | caught |", "| - | - | - | - | - |"]
for p in sorted((VERIF / "seeded").glob("*/meta.json")):
    m = json.loads(p.read_text())
    caught = f"by {m['property']}" if m.get("caught") else "no"
    rows.append(f"| {p.parent.name} | {m['property']} | {m['needs']} | "
                f"{m['what_it_breaks']} | {caught} |")
path = VERIF / "DESIGN.md"
text = re.sub(r"<!-- planted -->.*<!-- /planted -->",
              lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->",
              path.read_text(), flags=re.DOTALL)
path.write_text(text)
