#!/bin/bash
# Development aid: validates seeded bugs.  tool/seed.sh ID...
# Works on a copy of /repo bound over /repo in a private mount namespace; /repo itself is not touched.
V=$(cd "$(dirname "$0")/.." && pwd)
if [ -z "$SEED_IN" ]; then
  for id in "$@"; do
    d=/tmp/seed_$id; rm -rf "/tmp/seed_$id"; cp -a /repo $d
    SEED_IN=$d unshare -Urm bash "$0" $id
    rm -rf "/tmp/seed_$id"
  done
  exit
fi
mount --bind $SEED_IN /repo; cd /repo
id=$1; s=$V/seeded/$id
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
bash $s/demo.sh >$SEED_IN/.o1 2>&1; a=$?
git apply $s/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit; }
bash /opt/vp/build.sh >$SEED_IN/.b 2>&1 || { echo "$id: DOES NOT BUILD"; grep error $SEED_IN/.b | head -5; exit; }
t=$(bash /opt/vp/test.sh $SEED_IN/.t.json 2>&1 | tail -1)
bash $s/demo.sh >$SEED_IN/.o2 2>&1; b=$?
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd $V; SA_EVID=$SEED_IN/.ev SA_REPO=/repo timeout 600 python3 check.py $p >$SEED_IN/.c 2>&1; c=$?
echo "$id: demo clean=$a (want 0) patched=$b (want non-zero) tests: $t; check $p exit $c"
[ $a = 0 ] || tail -5 $SEED_IN/.o1
tail -3 $SEED_IN/.o2
tail -4 $SEED_IN/.c
