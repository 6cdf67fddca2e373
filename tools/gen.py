#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mc/props.py (run in /verif after editing it)."""

import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from mc.props import PROPS  # noqa: E402

MODULES = {}
exec((ROOT / "mc" / "run.py").read_text().split("MODULES = ")[1].join(["MODULES = ", ""]).split("\n\n\ndef main")[0])

claimed, missing = [], []
with open(ROOT / "properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(
            json.dumps(
                {
                    "id": p["id"],
                    "title": p["title"],
                    "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]},
                    "why_tests_cant": p["why"],
                    "anchors": {
                        "files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": p["state"],
                        "observe_at": p["observe"],
                        "hook_needed": None,
                    },
                }
            )
            + "\n"
        )
        f_ = ROOT / "mc" / (MODULES[p["id"]] + ".py")
        ok = f_.exists() and f"def {p['id'].lower()}(" in f_.read_text()
        (claimed if ok else missing).append(p)

man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import numpy, pandas, scipy, cvxpy' && mkdir -p evidence",
    "hooks": {"guard": "none", "enable": "no hooks: the checks import the unmodified code from /repo", "source_commits": []},
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        }
        for p in claimed
    ],
    "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in missing],
    "notes": "Every check runs the real code in /repo on every scenario of finite spaces (nothing is sampled); see DESIGN.md.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(claimed), "claimed,", [p["id"] for p in missing], "without check")
