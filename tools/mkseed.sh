#!/bin/bash
# usage: mkseed.sh ID PROPERTY "needs" "breaks"   (change made in /tmp/seed, demo files in /tmp/seeddemo/ID)

d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/seed diff > $d/patch.diff
test -s $d/patch.diff || { echo EMPTY PATCH; exit 1; }
cp -r /tmp/seeddemo/$1/. $d/
python3 - "$@" <<'P'
import json,sys
_,i,p,n,b=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
echo "patched:"; (cd /tmp/seed && bash $d/demo.sh >/tmp/demo.out 2>&1; echo rc=$?; tail -3 /tmp/demo.out)
git -C /tmp/seed checkout -q -- .
echo "clean:"; (cd /tmp/seed && bash $d/demo.sh >/tmp/demo.out 2>&1; echo rc=$?; tail -3 /tmp/demo.out)
