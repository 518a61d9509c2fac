#!/bin/bash
# development helper: build everything, then devrun.py with the arguments given
V=$(cd "$(dirname "$0")/.." && pwd)
python3 - <<P || exit 1
import sys; sys.path.insert(0,"$V")
import check
ok,s=check.build(); print("build",ok,round(s)); sys.exit(not ok)
P
[ $# = 0 ] || python3 $V/scripts/devrun.py "$@"
