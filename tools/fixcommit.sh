#!/bin/bash
# fixcommit.sh "fix: message": run the repository's own tests, commit when all 247 pass
cd /repo || exit 1
. /opt/vp/env.sh
bash /opt/vp/build.sh >/tmp/fixbuild.log 2>&1 || { grep -A12 '^error' /tmp/fixbuild.log; exit 1; }
out=$(bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1); echo "$out"
[ "$out" = "247 passed, 0 failed" ] || { bash /opt/vp/test.sh /tmp/o.json 2>&1 | grep FAIL | head; exit 1; }
git commit -qam "$1" && git log --oneline | head -1
