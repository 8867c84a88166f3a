#!/bin/bash
# usage: run.sh <ID>   (VERIF_TIER / VERIF_SEED from the environment)
#        run.sh <ID> thorough|quick
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; [ -n "$2" ] && export VERIF_TIER="$2"
. /opt/vp/env.sh
export PYTHONPATH="$here/lib:${VERIF_REPO:-/repo}:/opt/vp/plugins"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TF_CPP_MIN_LOG_LEVEL=3
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export TF_ENABLE_ONEDNN_OPTS=0 GRPC_VERBOSITY=NONE
scratch="$(mktemp -d /tmp/verif_run_XXXXXX)"
export VERIF_SCRATCH="$scratch" TMPDIR="$scratch" HOME="$scratch"
trap 'rm -rf -- "$scratch"' EXIT
py=/opt/venv/bin/python
cd "$scratch"
timeout -k 10 "${VERIF_TIMEOUT:-870}" "$py" "$here/checks/${id,,}.py" 2>"$scratch/stderr.txt"
rc=$?
if [ $rc -ne 0 ]; then tail -c 3000 "$scratch/stderr.txt" >&2; fi
exit $rc
