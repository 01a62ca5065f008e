#!/bin/bash
# bash run.sh <PROPERTY> [quick|thorough] [--seed N] [--only scenario,...] [--replay FILE] [-v]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
exec /opt/venv/bin/python vlib/main.py "$@"
