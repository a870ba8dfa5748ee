#!/bin/bash
# Nothing to compile: checks that the interpreter and the framework load.
cd "$(dirname "$(realpath "$0")")" || exit 2
mkdir -p evidence replays
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, vf.core; print('framework ready')"
