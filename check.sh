#!/bin/bash
# bash check.sh <property> [quick|thorough]   exit 0: held, 1: VIOLATION, 2: error of the check
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
timeout -k 5 "${VERIF_TIMEOUT:-$([ "${2:-quick}" = quick ] && echo 860 || echo 10800)}" \
    /opt/venv/bin/python -m mc.core "$1" --tier "${2:-quick}" "${@:3}"
rc=$?
[ $rc -le 1 ] || { echo "check error rc=$rc"; exit 2; }
exit $rc
