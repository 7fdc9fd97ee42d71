#!/bin/bash
# Build /repo and check that the worker interpreter can import it.
set -e
bash /opt/vp/build.sh >/dev/null
cd "$(dirname "$0")"
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv-pypy/bin/python -W ignore -c "import karta, numpy, sys; sys.path.insert(0, '.'); import worker"
echo ok
