#!/bin/bash
# caught.sh [filter]: applies each planted bug to a scratch copy and reports whether the check of its property notices.
cd "$(dirname "$0")/.."
for d in seeded/*${1:-}*/; do id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 t=$(mktemp -d /tmp/caught.XXXX); cp -a /repo $t/repo; (cd $t/repo && git apply /verif/$d/patch.diff)
 o=$(BUILD_DIR=$t/build REPO_DIR=$t/repo timeout 900 bash check.sh $p quick 2>&1); rc=$?
 echo "$id $p $([ $rc = 1 ] && echo CAUGHT || echo MISSED rc=$rc) $(echo "$o" | grep -m1 -i '^class')"
 rm -rf "$t"
done
