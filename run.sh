#!/bin/bash
# usage: run.sh PROP [quick|thorough]   |   run.sh --replay FILE
cd "$(dirname "$0")" || exit 2
if [ "$1" = "--replay" ]; then exec /opt/venv/bin/python mc/core.py --replay "$2" $3; fi
exec /opt/venv/bin/python mc/core.py "$1" "${2:-${VERIF_TIER:-quick}}"
