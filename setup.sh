#!/bin/bash
# Nothing is built in advance: the specification is interpreted by TLC and the code is imported from /repo.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
test -x /opt/venv-pypy/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
cd spec; for m in *.tla; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /dev/null || echo "cannot parse $m"; done
