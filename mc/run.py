from __future__ import annotations

import importlib
import json
import sys
import traceback

from . import engine
from .props import PROPS

MODULES = {
    **{f"C{i:02d}": "ewma_checks" for i in range(1, 8)},
    **{f"C{i:02d}": "comb_checks" for i in range(8, 18)},
    "C18": "io_checks",
    **{f"C{i:02d}": "reg_checks" for i in range(19, 22)},
    **{f"C{i:02d}": "exp_checks" for i in (22, 23, 24, 25, 26, 30, 31)},
    **{f"C{i:02d}": "trade_checks" for i in (27, 28, 29)},
    "C32": "ccp_checks",
    "C33": "rho_checks",
    "C34": "book_checks",
    "C35": "demo_checks",
}


def main(argv):
    pid = argv[0]
    prop = {p["id"]: p for p in PROPS}[pid]
    try:
        from . import code  # imports the code under test from /repo

        code.load(pid)
    except Exception:
        # the code under test cannot even be imported: no property holds
        msg = traceback.format_exc()
        engine.EVID.mkdir(exist_ok=True)
        (engine.EVID / "replay").mkdir(exist_ok=True)
        path = engine.EVID / "replay" / f"{pid}.json"
        path.write_text(json.dumps({"property": pid, "space": "import", "scenario": None, "message": msg}, indent=1))
        print(msg)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    mod = importlib.import_module(f".{MODULES[pid]}", __package__)
    import os

    deep = os.environ.get("VERIF_TIER") == "thorough"
    from . import forms, reuse_cases

    return engine.main(pid, prop, getattr(mod, pid.lower())(deep) + reuse_cases.spaces(pid) + forms.spaces(pid), argv[1:])


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
