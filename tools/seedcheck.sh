#!/bin/bash
# seedcheck.sh [ID...]: runs each seeded change's check against a scratch copy of /repo carrying the change
# (VERIF_REPO selects the tree), four at a time.
cd /verif
one() {
 i=$1
 pid=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
 w=$(mktemp -d /tmp/sc.XXXXXX)
 cp -a /repo/. "$w" && git -C "$w" apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; rm -rf "$w"; return; }
 for l in $(git -C /repo apply --numstat /verif/seeded/$i/patch.diff | awk '{print $3}'); do
  git -C "$w" diff -U0 -- $l | sed -n 's/^@@ -\([0-9]*\)\(,\([0-9]*\)\)\{0,1\} .*/\1 \3/p' | while read a n; do
   [ "$n" = 0 ] && continue
   git -C /repo blame -s -L $a,+${n:-1} -- $l | grep -v '^^' | sed "s/^/NOT ORIGINAL ($i): /"
  done
 done
 t0=$SECONDS
 v=$(mktemp -d /tmp/sv.XXXXXX); rsync -a --exclude .git --exclude seeded /verif/ $v/ 2>/dev/null || cp -a /verif/. $v
 (cd $v && VERIF_REPO=$w timeout 900 python3-vt check.py $pid) > /tmp/sclog.$i 2>&1; rc=$?
 echo "$i $pid rc=$rc $((SECONDS-t0))s $(grep -m1 VIOLATION /tmp/sclog.$i | cut -c1-150)"
 rm -rf "$w" "$v"
}
for id in ${@:-$(ls seeded)}; do
 while [ $(jobs -rp | wc -l) -ge 4 ]; do sleep 0.3; done
 one $id &
done
wait
