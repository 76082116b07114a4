#!/bin/sh
# Offline; checks that the interpreters the framework needs are in place.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
python3-vt -c 'import hypothesis' || exit 2
PYTHONPATH=/repo/src /opt/venv/bin/python -c 'import numpy, scipy, configargparse, tqdm' || exit 2
echo ready
