#!/bin/bash
# ./check.sh <property> [--tier quick|thorough] [--replay FILE] [-v]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec "${SHIVAV_PY:-python3-vt}" -m shivav.run "$@"
