#!/bin/bash
# reseed.sh ID: validate a seed locally (demo on clean & patched scratch tree, check on patched tree)
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
rm -rf /tmp/rs_$1; git clone -q /repo /tmp/rs_$1; cd /tmp/rs_$1
python3 /verif/tools/amalg.py >/dev/null; bash $d/demo.sh >/tmp/rs_$1.out 2>&1; a=$?
git apply $d/patch.diff || echo APPLY FAILED
python3 /verif/tools/amalg.py >/dev/null; bash $d/demo.sh >/tmp/rs_$1.out 2>&1; b=$?
VERIF_REPO=/tmp/rs_$1 python3 /verif/check.py $p > /tmp/rs_$1.chk 2>&1; c=$?
echo "$1 $p demo clean=$a patched=$b check=$c"; [ -n "$2" ] && { tail -3 /tmp/rs_$1.out; cut -c1-250 /tmp/rs_$1.chk | tail -8; }
rm -rf /tmp/rs_$1 /tmp/rs_$1.out /tmp/rs_$1.chk
