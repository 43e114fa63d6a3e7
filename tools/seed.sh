#!/bin/bash
# tools/seed.sh ID [demo|test|check]...  : try a planted bug in a scratch copy under /tmp/seed (not used by any check)
ID=$1; shift; WHAT=${*:-demo test check}; S=/verif/seeded/$ID; B=/tmp/seed; mkdir -p $B
mk(){ # dir
  mkdir -p $1; rsync -rlpc --delete --exclude _build --exclude .git /repo/ $1/
  sed "s#/repo#$1#g" /opt/vp/build.sh > $1.build; sed "s#/repo#$1#g;s#/opt/vp/build.sh#$1.build#g" /opt/vp/test.sh > $1.test; }
mk $B/base; bash $B/base.build >$B/base.log 2>&1 || { echo base build failed; exit 1; }
mk $B/r; (cd $B/r && git apply --unsafe-paths --directory=. $S/patch.diff 2>/dev/null || patch -p1 -s < $S/patch.diff) || { echo "$ID: patch does not apply"; exit 1; }
bash $B/r.build >$B/r.log 2>&1 || { echo "$ID: build failed"; tail -5 $B/r.log; exit 1; }
for w in $WHAT; do case $w in
 demo) (cd $B/base; timeout 300 bash $S/demo.sh >$B/demo0.log 2>&1; echo "$ID demo unchanged: $?"); (cd $B/r; timeout 300 bash $S/demo.sh >$B/demo1.log 2>&1; echo "$ID demo patched: $?"; tail -2 $B/demo1.log) ;;
 test) (flock 9; bash $B/r.test $B/out.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('$B/out.json'));print('$ID tests passed',len(d['passed']),'failed',d['failed'])") 9>$B/lock ;;
 check) P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); MC_REPO=$B/r MC_BUILD=$B/bld /verif/check $P >$B/check.log 2>&1; echo "$ID check $P: $?"; grep -v VIOLATION $B/check.log | head -3 | cut -c1-250 ;; esac; done
