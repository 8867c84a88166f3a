#!/bin/bash
# Nothing to compile: checks import /repo's working tree directly.  This only
# verifies that the framework and the code under test import here.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="$here/lib:/repo:/opt/vp/plugins" PYTHONDONTWRITEBYTECODE=1
mkdir -p "$here/evidence"
cd /tmp
/opt/venv/bin/python -c "import t5xshim, vlib; from t5x import decoding, checkpoints, utils, trainer, train; print('framework ready')" 2>/dev/null
