#!/bin/bash
# mkseed.sh ID PROP : /repo is modified; /verif/seeded/ID/demo.sh exists
ID=$1; PROP=$2; D=/verif/seeded/$ID
git -C /repo diff > $D/patch.diff
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAIL
bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1; echo "demo with patch: $?"; tail -2 /tmp/demo.out)
(cd /verif; time timeout 900 python3-vt run.py $PROP 2>&1 | grep -E "VIOLATION|quick|INCONC" | tail -3) 2>&1 | grep -v -E "user|sys|^$"
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1; echo "demo without: $?"; tail -2 /tmp/demo.out)
