#!/bin/bash
# try.sh "ID..." FILE SED-EXPRESSION: run checks on a scratch copy of /repo with one edit.
d=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo/. $d/; sed -i -E "$3" $d/$2; if diff -rq /repo/include $d/include > /dev/null && diff -rq /repo/example $d/example > /dev/null; then echo "NO CHANGE: $3"; else
for i in $1; do echo "$i: $3 => $(cd /verif; REPO_DIR=$d bash check.sh $i 2>&1 | grep -E 'VIOLATION prop|held|ERROR' | cut -c1-150 | tail -1)"; done; fi; rm -rf $d
