#!/bin/bash
# usage: check.sh PROPERTY quick|thorough   - run one simulation check
#        check.sh replay FILE               - re-execute a replay file
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ "$1" = replay ]; then
  exec "$PY" -B -W ignore -m dst.runner replay "$2"
fi
exec "$PY" -B -W ignore -m dst.runner check "$1" "${2:-quick}"
