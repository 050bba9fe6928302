#!/bin/bash
# check.sh PROP TIER : decides one property on the staircase of /repo
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec /opt/venv/bin/python harness/run.py --prop "$1" --tier "${2:-quick}" "${@:3}"
