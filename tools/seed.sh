#!/bin/bash
# seed.sh <bug-id> [check ids...] : applies the planted bug in /repo, verifies it counts, runs checks, undoes it.
cd /verif
B=$1; shift
D=/verif/seeded/$B
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
CH="${*:-$P}"
trap 'git -C /repo checkout -q -- .' EXIT
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; trap - EXIT; exit 9; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/demo0.log 2>&1); echo "demo clean: $?"
git -C /repo apply $D/patch.diff || exit 8
bash /opt/vp/build.sh >/tmp/b.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/demo1.log 2>&1); echo "demo patched: $?"; tail -2 /tmp/demo1.log
for c in $CH; do ./check.sh $c quick >/tmp/chk.log 2>&1; echo "check $c: $? $(grep -m1 -a 'violated:' /tmp/chk.log | cut -c1-250)"; done
