#!/bin/bash
# tryseed.sh ID...: demo on the unchanged tree and with the patch, stable tests with the patch, checks with the patch
for id in "$@"; do
  s=/verif/seeded/$id; t=$(mktemp -d /tmp/seed-XXXX); cp -a /repo/. $t/
  (cd $t && bash $s/demo.sh >$t/.d0 2>&1); a=$?
  git -C $t apply $s/patch.diff || { echo "$id: does not apply"; rm -rf $t; continue; }
  (cd $t && bash $s/demo.sh >$t/.d1 2>&1); b=$?
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  FCV_REPO=$t FCV_BUILD=$t/.fb FCV_EVIDENCE=$t/.fe /verif/check $p >$t/.c 2>&1; c=$?
  echo "$id: demo clean=$a patched=$b; check $p rc=$c: $(grep -m1 VIOLATION $t/.c | cut -c1-160)"
  [ $a = 0 ] || tail -3 $t/.d0; tail -1 $t/.d1 | cut -c1-150
  rm -rf $t
done
