#!/bin/sh
# sh run.sh <property> [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
export TZ="${VERIF_TZ:-UTC}"
id="$1"; shift
exec /opt/venv/bin/python -W ignore -m checks.main "$id" "$@"
