#!/bin/bash
# Nothing to build: check that the interpreter and the code under test can be imported.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
PYTHONPATH="$here:${MC_REPO:-/repo}" /opt/venv/bin/python -c 'import mc.core, specula; print(specula.__file__)'
