#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1
unset PYTHONPATH PYTHONHOME
exec python3-vt -m vp.run "$1" "${2:-quick}"
