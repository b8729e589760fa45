#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property from /repo's current source.
cd "$(dirname "$0")"
exec env PYTHONDONTWRITEBYTECODE=1 VERIF_TIER="${2:-${VERIF_TIER:-quick}}" python3 -c 'import sys
sys.setrecursionlimit(20000)
from sa import core
sys.exit(core.main(sys.argv[1:]))' "$1"
