#!/bin/bash
# Nothing to build: checks that the tools the checks use are there.
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import pandas, networkx, scipy; print("runtime ok")'
mkdir -p evidence replays
