#!/usr/bin/env bash
# Nothing to compile: check that the interpreter, the package and the generators load from /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cache="$(mktemp -d /tmp/ccpv.XXXXXX)"
trap 'rm -rf -- "$cache"' EXIT
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$cache" && PYTHONPYCACHEPREFIX="$cache/pyc" PYTHONPATH="$here" PYTHONUTF8=1 "$py" -c "
from ccpv import gen, search, core, src
print('ready', len(gen.CONST_STR), len(gen.CONST_INT))"
