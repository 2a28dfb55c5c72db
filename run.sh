#!/bin/bash
# run.sh ID [quick|thorough] [--replay FILE]   -- decide one property on /repo's working tree
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export LANG=C.UTF-8 PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH=${MC_REPO:-/repo}:$here/mc:$here/mc/stubs
cd "$here" || exit 2
exec /opt/venv/bin/python "$here/mc/driver.py" "$@"
