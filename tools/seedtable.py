"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json (not read by any check)."""
import json, pathlib, re
root = pathlib.Path(__file__).parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} ({m['needs']}) | {m['property']} | {m.get('caught_by', m['property'])} |")
p = root / "DESIGN.md"
s = p.read_text()
head = "| planted bug | property | caught by |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n\n## Limits")
p.write_text(s[:i] + "\n".join(rows) + s[j:])
