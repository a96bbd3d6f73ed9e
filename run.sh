#!/usr/bin/env bash
# usage: run.sh <property> [quick|thorough]      run the check of a property
#        run.sh <property> --replay FILE         re-run one recorded case
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
pid="$1"; shift
cache="$(mktemp -d /tmp/ccpv.XXXXXX)"
trap 'rm -rf -- "$cache"' EXIT
export PYTHONPYCACHEPREFIX="$cache/pyc" PYTHONHASHSEED=0 PYTHONPATH="$here" PYTHONIOENCODING=utf-8 PYTHONUTF8=1
export CCPV_SCRATCH="$cache"
unset PYTHONOPTIMIZE PYTHONSTARTUP PYTHONDONTWRITEBYTECODE
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$cache" || exit 2
"$py" -m ccpv "$pid" "$@"
