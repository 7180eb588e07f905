#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough>
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/vf.XXXXXX)"
trap 'rm -rf -- "$scratch"' EXIT
cd "$scratch" || exit 2
export HOME="$scratch" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg BROWSER=true PYTHONHASHSEED=0 OMP_NUM_THREADS=1
export PYTHONPATH=/repo
/opt/venv/bin/python -c "
import sys
sys.path.insert(0, '$here')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vf import runner
sys.exit(runner.main(sys.argv[1:]))
" "$@"
