#!/bin/bash
# check.sh <property> <quick|thorough> [run.py options]
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export VERIF_TIER="$2"
exec /opt/venv39/bin/python run.py check "$1" --tier "$2" "${@:3}"
