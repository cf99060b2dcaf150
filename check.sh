#!/bin/bash
# check.sh ID [quick|thorough]: rebuild the check for property ID from /repo's working tree and run it.
# check.sh ID replay FILE: replay a recorded violation.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" LC_ALL=C
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
ID="$1"; MODE=check
case "$2" in quick|thorough) VERIF_TIER="$2";; replay) MODE=replay; FILE="$3";; one|hashes) MODE=raw; shift;; esac
REPO="${REPO_DIR:-/repo}"
source ./build_rules.sh || exit 2
build_check "$ID" || { echo "ERROR: check $ID could not be built from $REPO" >&2; exit 2; }
case "$MODE" in
  check)  exec "$BIN" check;;
  replay) exec "$BIN" replay "$FILE";;
  raw)    exec "$BIN" "$@";;
esac
