#!/bin/bash
cd "$(dirname "$(realpath "$0")")/.." || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg SDL_VIDEODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1 PYTHONPATH=/repo:$PWD
/opt/venv/bin/python tools/mkmanifest.py && /opt/venv/bin/python tools/mkdesign.py
