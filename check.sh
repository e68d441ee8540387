#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONHOME http_proxy https_proxy HTTP_PROXY HTTPS_PROXY
export VERIF_SEED="${VERIF_SEED:-1}"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec /opt/venv/bin/python -W ignore harness/run.py "$1"
