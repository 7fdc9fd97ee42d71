#!/bin/bash
# bash /verif/mc/replay.sh FILE: runs the one case of a replay file, without the explorer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "${1:?usage: replay.sh FILE}")
bash /opt/vp/build.sh > /dev/null || exit 2
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cd "$w" && TMPDIR=$w PYTHONPATH=/repo:$here PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PROJ_NETWORK=OFF MALLOC_PERTURB_=85 \
    /opt/venv-pypy/bin/python -W ignore "$here/worker.py" replay "$f"
