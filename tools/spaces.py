"""Writes SPACES.md (spaces, bounds and counts of the last quick run) from evidence/*.json.  Run by hand, not by checks."""

import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from mc.props import PROPS  # noqa: E402

out = [
    "# What each quick check enumerates",
    "",
    "Written by tools/spaces.py from the evidence of a quick run.  Every space is enumerated completely.",
    "",
]
for p in PROPS:
    e = json.loads((ROOT / "evidence" / f"{p['id']}.json").read_text())
    assert e["tier"] == "quick" and e["violations"] == 0, p["id"]
    out += [f"## {p['id']} {p['title']}", "", "| space | bound | scenarios | states | steps | runs |", "|-|-|-:|-:|-:|-:|"]
    for s in e["coverage"]["spaces"]:
        assert s["completed"]
        out.append(
            f"| {s['space']} | {s['bound']} | {s['scenarios']} | {s['states']} | {s['transitions']} | {s['traces']} |"
        )
    out += [f"", f"wall time {e['wall_s']:.0f} s on 8 cores", ""]
(ROOT / "SPACES.md").write_text("\n".join(out))
