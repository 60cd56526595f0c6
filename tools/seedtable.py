"""Prints the table of planted bugs for DESIGN.md (from seeded/*/meta.json and tools/caught.json)."""
import json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
caught = json.loads((root / "tools/caught.json").read_text()) if (root / "tools/caught.json").exists() else {}
print("| planted bug | needs | caught by |\n|---|---|---|")
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    print(f"| {d.name} | {m['needs']} | {caught.get(d.name, '?')} |")
