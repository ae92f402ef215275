#!/bin/sh
# Nothing to build ahead of time: every check regenerates its encoding from /repo on each run.
set -e
test -x /opt/venv/bin/python
/opt/venv/bin/python -c 'import sys; assert sys.version_info[:2] >= (3, 12)'
test -d /opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
