"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property | needs |", "|---|---|---|"]
for f in sorted(root.glob("seeded/*/meta.json")):
    m = json.loads(f.read_text())
    rows.append(f"| {f.parent.name} | {m['property']} | {m['needs']} |")
design = root / "DESIGN.md"
text = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->", design.read_text(), flags=re.S)
design.write_text(text)
print(len(rows) - 2)
