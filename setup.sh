#!/bin/bash
# Nothing to build: the specifications are read by TLC, the harness imports qadence from /repo. Only check the tools are there.
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
test -f /opt/veriftools/tla/tla2tools.jar
. /opt/vp/env.sh
cd "$here/harness" && /opt/venv/bin/python -c "import specs, tlc, runtime"
