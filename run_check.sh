#!/bin/bash
# run_check.sh PID [--replay FILE]: model-check one property against /repo's working tree.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
export PYTHONPATH="$here:${MC_REPO:-/repo}"
exec /opt/venv/bin/python -m mc.main "$@"
