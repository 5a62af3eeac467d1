#!/bin/bash
# bash check.sh <property>: decides one property for /repo's current working tree
cd "$(dirname "$0")" || exit 3
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${VERIF_HASHSEED:-0} MPLBACKEND=Agg RAY_USAGE_STATS_ENABLED=0 TQDM_DISABLE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH=${VERIF_REPO:-/repo}/src:$PWD
unset MP_API_KEY PMG_MAPI_KEY
work=$(mktemp -d /tmp/vf.XXXXXX)
export TMPDIR=$work RAY_TMPDIR=$work NUMBA_CACHE_DIR=$work
trap 'rm -rf "$work"' EXIT
/opt/venv/bin/python -m harness.run "$1"
rc=$?
exit $rc
