#!/bin/sh
# DESIGN.md = text + table of planted bugs (run by hand)
cd "$(dirname "$0")/.." || exit 1
{ cat tools/design_head.md; echo; python3 tools/catches.py; cat tools/design_tail.md; } > DESIGN.md
