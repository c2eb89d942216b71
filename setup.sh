#!/bin/bash
# nothing to build: the checks import /repo's working tree directly; make sure the interpreter they use is there
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import zmq, uvloop, tblib, cloudpickle, psutil, bidict, scaled"
