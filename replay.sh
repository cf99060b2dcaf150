#!/bin/bash
# replay.sh FILE: rebuild from /repo and replay a violation; exit 1 with its VIOLATION line if it reproduces exactly.
F=$(realpath "$1") || exit 2
ID=$(sed -n 's/^property: //p' "$F" | head -1)
exec bash "$(dirname "$0")/check.sh" "$ID" replay "$F"
