#!/bin/bash
# bash run.sh <ID> [--tier quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/support/env.sh ] && . /opt/vp/support/env.sh >/dev/null 2>&1
export TF_USE_LEGACY_KERAS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 OMP_NUM_THREADS=1
export TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export TF_ENABLE_ONEDNN_OPTS=0 PYTHONPATH="${VERIF_REPO:-/repo}:$here/lib:$here" VERIF_SEED="${VERIF_SEED:-1}"
PY="${PY:-/opt/venv/bin/python}"
exec "$PY" "$here/lib/mc.py" "$@"
