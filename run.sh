#!/bin/bash
# usage: run.sh <property> [quick|thorough] [--replay file]
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
id=$1; tier=${2:-quick}; shift; shift
export VERIF_TIER=$tier PYTHONPATH=$here:${VERIF_REPO:-/repo} PYTHONWARNINGS=ignore TF_CPP_MIN_LOG_LEVEL=3
scratch=$(mktemp -d /tmp/verif_run.XXXXXX)
cd "$scratch" || exit 2
/opt/venv/bin/python "$here/checks/$id.py" "$@" 2> "$scratch/stderr"
rc=$?
case $rc in
 0|1) ;;
 *) tail -20 "$scratch/stderr" >&2 ;;
esac
cd /
rm -rf "$scratch"
exit $rc
