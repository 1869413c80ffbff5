#!/bin/bash
# Nothing to build: the checks are Python and import the code under test from /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:. /opt/venv/bin/python -c 'import rdtools, mc.core, mc.models; print(rdtools.__file__)'
