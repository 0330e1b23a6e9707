#!/bin/bash
# check.sh <property id> [quick|thorough]: static decision of one property on /repo's current source
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3 check.py "$@"
