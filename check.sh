#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONIOENCODING=utf-8
exec /opt/venv/bin/python -B -m harness.core "$@"
