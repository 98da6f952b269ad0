#!/bin/bash
# replay.sh DIR: runs the operations of a recorded violation on the current
# tree again and says where the specification disagrees with the trace.
D=$(realpath "$1")
exec python3 "$(dirname "$(realpath "$0")")/replay.py" "$D"
