"""
Assembles DESIGN.md from tools/design_*.md and the list of planted changes: python3 tools/mkdesign.py
"""

import json
from pathlib import Path

home = Path(__file__).resolve().parent.parent
text = "\n".join((home / "tools" / f"design_{n}.md").read_text().rstrip() + "\n" for n in ("head", "props", "seeded"))
rows = []
for meta in sorted((home / "seeded").glob("*/meta.json")):
    m = json.loads(meta.read_text())
    rows.append(f"| {meta.parent.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
text += "\n| change | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n\n"
text += (home / "tools" / "design_tail.md").read_text()
(home / "DESIGN.md").write_text(text)
