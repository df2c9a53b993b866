#!/bin/bash
# ./check.sh C01 [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
export MPLCONFIGDIR; MPLCONFIGDIR=$(mktemp -d /tmp/mc-mpl.XXXXXX) || exit 2
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
unset PYTHONPATH
/opt/venv/bin/python -m mc.main "$@"
exit $?
