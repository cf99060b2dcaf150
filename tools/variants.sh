#!/bin/bash
# Fails if any check builds in a reduced variant on the unchanged tree.
cd "$(dirname "$0")/.."; export VERIF_DIR="$PWD"; REPO=${REPO_DIR:-/repo}; source ./build_rules.sh; BUILD_DIR=$(mktemp -d); bad=0
for i in E01 E02 E03 E04 E05 E07 E08 E09 F01 F02 F03 F04 F05 F06; do build_check $i && [ "$DST_VARIANT" = full ] || { echo "$i: ${DST_VARIANT}"; bad=1; }; done
rm -rf "$BUILD_DIR"; [ $bad = 0 ] && echo "all checks build in the full variant"; exit $bad
