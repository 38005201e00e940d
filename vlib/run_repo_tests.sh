#!/bin/bash
# Developer aid: run the repository's own tests against a scratch install that
# has the catalogue the sandbox lacks. Not a registered check.
set -e
D=$(mktemp -d /tmp/rt.XXXXXX)
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c "
import sys; sys.path.insert(0,'.')
from vlib import cat, install
install.install('$D', cat.fixed())"
cp -r /repo/tests "$D/tests"
cd "$D"; PYTHONPATH=$D PYTHONDONTWRITEBYTECODE=1 timeout 800 /opt/venv/bin/python -m pytest -q -W ignore -p no:cacheprovider --timeout=100 --tb=short tests 2>&1 | grep -E "^(FAILED|ERROR|E  )|passed|failed" || true
find "$D" -delete
