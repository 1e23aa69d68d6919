#!/bin/bash
# Nothing has to be built: the checks import surfalize from /repo's working tree. Verifies that this works.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
mkdir -p evidence
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); import mc.core, mc.util, surfalize; print('surfalize', surfalize.__file__)"
