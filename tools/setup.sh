#!/bin/bash
# Nothing to build: the checks are Python and import /repo/src directly. Sanity only.
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here" && mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" /opt/venv/bin/python -c "import numpy, scipy, pyrvt, pykooh, mc.explore" 
