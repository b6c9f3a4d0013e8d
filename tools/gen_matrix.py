#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property | needs | breaks | found by its check |", "|---|---|---|---|---|"]
for meta in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(meta.read_text())
    rows.append(f"| `{meta.parent.name}` | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('found', 'yes')} |")
design = ROOT / "DESIGN.md"
text = design.read_text()
begin, end = "<!-- matrix: written by tools/gen_matrix.py -->\n", "<!-- end matrix -->"
text = re.sub(re.escape(begin) + ".*?" + re.escape(end), lambda _: begin + "\n" + "\n".join(rows) + "\n\n" + end, text, flags=re.S)
design.write_text(text)
