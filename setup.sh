#!/bin/bash
# nothing is compiled: checks that the tools are there and the specification parses
cd "$(dirname "$0")" || exit 2
. ./env.sh
/opt/venv/bin/python -c 'import staircase, pandas, numpy' || exit 2
cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY Trace.tla >/dev/null || exit 2
