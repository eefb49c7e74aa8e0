"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json (detector: the property's own check)."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
mark = "<!-- planted changes (tools/make_catch_table.py) -->"
f = root / "DESIGN.md"
text = f.read_text().split(mark)[0].rstrip()
out = [mark, "", "| change | caught by (quick) | needs |", "| --- | --- | --- |"]
for d in sorted((root / "seeded").iterdir()):
    x = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {x.get('caught_by', x['property'])} | {x['needs']} |")
f.write_text(text + "\n\n" + "\n".join(out) + "\n")
print(len(out) - 4)
