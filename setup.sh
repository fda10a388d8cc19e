#!/bin/bash
# Nothing to build: check that the monitor and the library under test import.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '/repo/src')
import numpy, scipy, networkx, matplotlib
from ffmon import core, contracts, catalog, oracles
print('monitor ready')
"
