#!/bin/sh
# Nothing is compiled: check that the interpreter, the library under test and
# the fixtures are usable.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
exec /opt/venv/bin/python -W ignore -m checks.main --selftest
