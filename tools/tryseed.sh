#!/bin/bash
# tryseed.sh ID...: demo on the clean tree, then demo and check with the patch (no build, no tests)
V="$(cd "$(dirname "$0")/.." && pwd)"; R=${VERIF_REPO:-/repo}
for id in "$@"; do
  d=$V/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd $R && bash $d/demo.sh >/tmp/seed.out 2>&1); a=$?
  git -C $R apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd $R && bash $d/demo.sh >>/tmp/seed.out 2>&1); b=$?
  (cd $V && python3 check.py $p >/tmp/seed.chk 2>&1); c=$?
  git -C $R checkout -- .
  echo "$id $p demo clean=$a patched=$b check=$c $(grep -m1 VIOLATION /tmp/seed.chk)"
  [ $a = 0 ] && [ $b != 0 ] && [ $b != 2 ] || tail -5 /tmp/seed.out
done
