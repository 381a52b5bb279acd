#!/bin/bash
# bash run.sh <property id>: one check.  VERIF_SEED and VERIF_TIER choose the
# random choices and the depth.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
export PYTHONWARNINGS=ignore
export PYTHONPATH="${VERIF_REPO:-/repo}":"$here/harness" TF_NUM_INTRAOP_THREADS=2 TF_NUM_INTEROP_THREADS=2 OMP_NUM_THREADS=2
cd "$here"
exec "$PY" "$here/harness/main.py" "$@"
