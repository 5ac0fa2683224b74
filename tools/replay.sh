#!/bin/sh
# usage: tools/replay.sh FILE.replay   (rebuilds from /repo and runs that one case)
f=$(readlink -f "$1")
p=$(sed -n 's/^property //p' "$f")
exec python3 "$(dirname "$0")/run_check.py" "$p" --replay "$f"
