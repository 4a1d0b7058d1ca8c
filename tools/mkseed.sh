#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS  -- takes the diff of /tmp/wt and /tmp/demo.c (or /tmp/demo.sh); resets /tmp/wt
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo empty diff; exit 1; }
if [ -f /tmp/demo.sh ]; then mv /tmp/demo.sh $d/demo.sh; [ -f /tmp/demo.c ] && mv /tmp/demo.c $d/demo.c
else
mv /tmp/demo.c $d/demo.c
cat > $d/demo.sh <<'S'
#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -O0 -g -I build/c -o "$T/demo" "$D/demo.c" -lm || exit 3
cd "$T" && timeout 200 ./demo
S
fi
chmod +x $d/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
cp -a /tmp/wt /tmp/wtb
set +e
git -C /tmp/wt checkout -q -- .
for w in wt wtb; do
 (cd /tmp/$w && python3 /verif/tools/amalg.py >/dev/null && bash $d/demo.sh >/tmp/demo_$w.out 2>&1; echo "$w demo exit $?"; tail -2 /tmp/demo_$w.out)
done
VERIF_REPO=/tmp/wtb python3 /verif/check.py $2 2>&1 | cut -c1-250 | tail -8
rm -rf /tmp/wtb
