#!/bin/bash
# mk.sh ID PROPERTY "cfgs" : checks a seeded change. Uses /tmp/seed/ID/{patch.diff,demo.c,meta.json}
# creates /verif/seeded/ID when the change builds, passes the tests, and the demo tells both trees apart
set -e
ID=$1; S=/verif/seeded/$ID; K=/verif/tools/seedkit; CFGS="$2"
mkdir -p $S
[ -f $S/demo.sh ] || sed "s/@CFGS@/$CFGS/" $K/demo.sh > $S/demo.sh
[ -f $S/demo.c ] && cp $K/demo.h $S/
cd /repo
git diff --quiet || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "clean build failed"; exit 1; }
bash $S/demo.sh || { echo "demo fails on the clean tree"; exit 1; }
git apply $S/patch.diff
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -5 /tmp/b.log; echo "patched build failed"; exit 1; }
if bash $S/demo.sh; then echo "demo does not see the change"; exit 1; fi
bash /opt/vp/test.sh /tmp/seed.json >/tmp/t.log 2>&1; tail -1 /tmp/t.log
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif && python3-vt run.py $P > /tmp/seedrun.log 2>&1 && rc=0 || rc=$?; tail -4 /tmp/seedrun.log | cut -c1-200; echo "check $P exit $rc"
